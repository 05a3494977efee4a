#include "scan.h"
using namespace vh;
VTESTW(states, 2) {
	Rng& r = c.rng; Nfa a = r.chance(1, 2) ? random_nfa(r) : random_dfa(r, 7, 3, true, r.chance(1, 2)); c.note(a.dump()); Fsm f = to_fsm(a);
	if (r.chance(1, 4)) { f.Determine(); a = from_fsm(f); } else if (r.chance(1, 4)) { f.Sparse(true); }
	auto dead = f.DeadStates(); std::vector<bool> fw = forward(a), bw = backward(a);
	for (int s = 0; s < a.n; ++s) CHECK((dead.count(s) != 0) == (!fw[s] || !bw[s]), "state " << s << (dead.count(s) ? " is reported dead but is reachable and reaches a final state" : " is not reported dead"));
	f.RemoveDeadEnds(); check_language(from_fsm(f), a, "RemoveDeadEnds");
}
template<class Sc> void flags(Case& c, const Fsm& f, const Nfa& a, const char* name, bool hasDead) {
	Rng& r = c.rng; Sc sc(const_cast<Fsm&>(f)); std::vector<const Nfa*> as(1, &a); std::vector<int> al = reps(as); std::vector<bool> bw = backward(a);
	for (int w = 0; w < 6; ++w) { typename Sc::State st; sc.Initialize(st); Set s = a.start(); bool was = false; std::string t;
		for (int i = 0; i < 12; ++i) {
			bool live = false; for (int x : s) live = live || bw[x];
			if (sc.Dead(st)) { CHECK(!live, name << ": dead after '" << t << "' although a final state is reachable"); was = true; }
			else if (hasDead) CHECK(live, name << ": not dead after '" << t << "' although no final state is reachable");
			if (was) CHECK(!sc.Final(st), name << ": final after a dead state, at '" << t << "'");
			CHECK(sc.Final(st) == a.fins(s), name << ": final flag after '" << t << "'");
			int ch = al[r.below(al.size())]; Pire::Step(sc, st, ch); s = a.step(s, ch); t += show(Word(1, ch)); } }
}
VTEST(scanners) {
	Rng& r = c.rng; Nfa a = r.chance(1, 2) ? random_nfa(r) : random_dfa(r, 6, 3); c.note(a.dump()); Fsm f = to_fsm(a);
	flags<Pire::Scanner>(c, f, a, "Scanner", true); flags<Pire::NonrelocScanner>(c, f, a, "NonrelocScanner", true); flags<Pire::ScannerNoMask>(c, f, a, "ScannerNoMask", true); flags<Pire::NonrelocScannerNoMask>(c, f, a, "NonrelocScannerNoMask", true); flags<Pire::SimpleScanner>(c, f, a, "SimpleScanner", false); flags<Pire::SlowScanner>(c, f, a, "SlowScanner", false);
}
// glued scanners are dead exactly when all parts are
VTEST(glued) {
	Rng& r = c.rng; Nfa a = random_dfa(r, 4, 3), b = random_dfa(r, 4, 3); c.note(a.dump()); c.note(b.dump()); Fsm f = to_fsm(a), g = to_fsm(b);
	Pire::Scanner x = f.Compile<Pire::Scanner>(), y = g.Compile<Pire::Scanner>(), z = Pire::Scanner::Glue(x, y); if (z.Empty()) return;
	std::vector<const Nfa*> as; as.push_back(&a); as.push_back(&b); std::vector<int> al = reps(as);
	for (int w = 0; w < 6; ++w) { Pire::Scanner::State p, q, s; x.Initialize(p); y.Initialize(q); z.Initialize(s); std::string t;
		for (int i = 0; i < 12; ++i) { CHECK(z.Dead(s) == (x.Dead(p) && y.Dead(q)), "glued: Dead() after '" << t << "' is " << z.Dead(s) << ", parts: " << x.Dead(p) << " " << y.Dead(q)); CHECK(z.Final(s) == (x.Final(p) || y.Final(q)), "glued: Final() after '" << t << "'"); if (z.Dead(s)) CHECK(!z.Final(s), "dead and final");
			int ch = al[r.below(al.size())]; Pire::Step(x, p, ch); Pire::Step(y, q, ch); Pire::Step(z, s, ch); t += show(Word(1, ch)); } }
}
VMAIN
