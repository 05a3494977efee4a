#include "scan.h"
using namespace vh;
typedef Pire::SlowScanner Slow;
static void check_state(const Slow& sc, const Slow::State& st, const Set& want, bool fin, const std::string& t, const char* how, bool flags) {
	Set got(st.states.begin(), st.states.end());
	CHECK(got.size() == st.states.size(), how << ": a state is listed twice after '" << t << "'");
	CHECK(got == want, how << ": state set after '" << t << "' has " << got.size() << " states, expected " << want.size());
	if (flags) { CHECK(st.flags.Size() == sc.Size(), how << ": size of the membership bits"); for (size_t i = 0; i < sc.Size(); ++i) CHECK(st.flags.Test(i) == (want.count(i) != 0), how << ": membership bit of state " << i << " after '" << t << "'"); }
	CHECK(sc.Final(st) == fin, how << ": Final() after '" << t << "'"); CHECK(sc.CanStop(st) == fin, how << ": CanStop() after '" << t << "'"); CHECK(!sc.Dead(st) || !fin, how << ": dead and final");
	auto ar = sc.AcceptedRegexps(st); CHECK((ar.first != ar.second) == fin, how << ": AcceptedRegexps() after '" << t << "'"); if (fin) CHECK(*ar.first == 0 && ar.second - ar.first == 1, how << ": accepted regexp");
}
static void walk(Case& c, const Slow& sc, const Nfa& a, const char* how) {
	Rng& r = c.rng; std::vector<const Nfa*> as(1, &a); std::vector<int> al = reps(as), lt; for (int ch : al) if (ch < 256) lt.push_back(ch);
	for (int w = 0; w < 5; ++w) {
		Slow::State st, run, n1; sc.Initialize(st); sc.Initialize(run); sc.Initialize(n1); Set s; s.insert(a.init); std::string t, text; check_state(sc, st, s, a.fins(s), t, how, false);
		bool marks = r.chance(1, 2);
		for (int i = 0; i < 10; ++i) { int ch = marks ? al[r.below(al.size())] : lt[r.below(lt.size())]; t += show(Word(1, ch)); Set n; for (int x : s) { auto it = a.tr[x].find(ch); if (it != a.tr[x].end()) n.insert(it->second.begin(), it->second.end()); }
			Slow::State before = st; sc.Next(before, n1, ch); check_state(sc, n1, n, a.fins(n), t, how, true); CHECK(eq(before, st), how << ": the source state is changed"); sc.TakeAction(n1, 0); Pire::Step(sc, st, ch); s = n; check_state(sc, st, s, a.fins(s), t, how, true); if (!marks) text += (char)ch; }
		if (!marks) { Guarded g(text, r.below(8), true, 0xff); Pire::Run(sc, run, g.b, g.e); check_state(sc, run, s, a.fins(s), t, how, true); }
	}
}
VTESTW(states, 3) {
	Rng& r = c.rng; GenOpt o; o.eps = false; o.maxStates = r.chance(1, 4) ? 12 : 5; o.density = r.range(2, 8); Nfa a = random_nfa(r, o); c.note(a.dump()); Fsm f = to_fsm(a); Slow sc(f); Nfa b = from_fsm(f); check_language(b, a, "RemoveEpsilons"); walk(c, sc, a, "in memory");
	Slow cp(sc); walk(c, cp, a, "copy");
	std::ostringstream out; sc.Save(&out); std::string d = out.str(); std::istringstream in(d); Slow ld; ld.Load(&in); walk(c, ld, a, "loaded");
	std::vector<size_t> buf(d.size() / sizeof(size_t) + 1); memcpy(buf.data(), d.data(), d.size()); Slow mp; mp.Mmap(buf.data(), d.size()); walk(c, mp, a, "mapped");
}
// agrees with the deterministic scanner, epsilon transitions included
VTEST(same) {
	Rng& r = c.rng; Nfa a = random_nfa(r); c.note(a.dump()); Fsm f = to_fsm(a); Fsm g = f; Slow sc(f); Pire::SimpleScanner d(g);
	std::vector<const Nfa*> as(1, &a); std::vector<int> al = reps(as);
	for (int w = 0; w < 8; ++w) { Slow::State st; sc.Initialize(st); Pire::SimpleScanner::State q; d.Initialize(q); Set s = a.start(); std::string t;
		for (int i = 0; i < 12; ++i) { CHECK(sc.Final(st) == a.fins(s), "Final() after '" << t << "'"); CHECK(d.Final(q) == sc.Final(st), "deterministic scanner differs after '" << t << "'"); int ch = al[r.below(al.size())]; Pire::Step(sc, st, ch); Pire::Step(d, q, ch); s = a.step(s, ch); t += show(Word(1, ch)); } }
}
VTESTW(bitset, 2) {
	Rng& r = c.rng; size_t n = r.chance(1, 3) ? r.below(20) : r.below(100); Pire::BitSet b(n); std::set<size_t> want; std::string h = "BitSet(" + str(n) + ")"; if (r.chance(1, 8)) { n = 0; b = Pire::BitSet(); h = "BitSet()"; }
	for (int k = 0; k < 25; ++k) {
		size_t i = n ? r.below(n) : 0;
		switch (r.below(9)) {
		case 0: case 1: case 2: if (n) { b.Set(i); want.insert(i); h += " Set " + str(i); } break;
		case 3: case 4: if (n) { b.Reset(i); want.erase(i); h += " Reset " + str(i); } break;
		case 5: b.Clear(); want.clear(); h += " Clear"; break;
		case 6: { n = r.chance(1, 2) ? r.below(n + 10) : (r.below(6) * 8); b.Resize(n); want.erase(want.lower_bound(n), want.end()); h += " Resize " + str(n); break; }
		case 7: { Pire::BitSet x(b); b.Set(n ? i : 0); b = x; h += " copy"; break; }
		case 8: { size_t m = r.below(40); Pire::BitSet x(m); for (size_t j = 0; j < m; ++j) if (r.chance(1, 2)) x.Set(j); std::set<size_t> w; for (size_t j = 0; j < m; ++j) if (x.Test(j)) w.insert(j); b.Swap(x); for (size_t j = 0; j < n; ++j) CHECK(x.Test(j) == (want.count(j) != 0), "Swap: bit " << j << " of the other set, " << h); CHECK(x.Size() == n, "size after Swap"); n = m; want = w; h += " Swap " + str(m); break; }
		}
		CHECK(b.Size() == n, "Size() is " << b.Size() << ", expected " << n << ": " << h);
		for (size_t j = 0; j < n; ++j) CHECK(b.Test(j) == (want.count(j) != 0), "bit " << j << " is " << b.Test(j) << ": " << h);
	}
}
VMAIN
