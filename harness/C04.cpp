#include "scan.h"
using namespace vh;
// an automaton in which (almost) every character is a letter class of its own
static Nfa wide(Rng& r) { Nfa a; a.resize(r.range(2, 20)); a.init = r.below(a.n); for (int s = 0; s < a.n; ++s) for (int c = 0; c < (int)MaxChar; ++c) if (c != Epsilon) a.edge(s, c, r.below(a.n)); for (int i = r.range(1, a.n); i; --i) a.fin.insert(r.below(a.n)); return a; }
static Nfa any_dfa(Rng& r) { int k = r.below(8); if (k == 0) return wide(r); if (k < 3) return det(random_nfa(r)); return random_dfa(r, r.chance(1, 6) ? 60 : 9, r.range(1, 8)); }
static bool dead_(const Nfa& a, int s) { return !forward(a)[s] || !backward(a)[s]; }
// every state and every character, state numbers as in the automaton
template<class Sc> void table(const Sc& sc, const Nfa& a, const std::string& nm, bool hasDead, bool identity = true) {
	CHECK(sc.Size() == (size_t)a.n, nm << ": " << sc.Size() << " states, the automaton has " << a.n);
	CHECK(sc.RegexpsCount() == 1, nm << ": " << sc.RegexpsCount() << " regexps");
	typename Sc::State st; sc.Initialize(st); std::vector<bool> fw = forward(a), bw = backward(a);
	std::map<size_t, int> to; std::vector<std::pair<typename Sc::State, int> > qq(1, std::make_pair(st, a.init)); to[sc.StateIndex(st)] = a.init;
	for (size_t i = 0; i < qq.size(); ++i) {
		typename Sc::State s = qq[i].first; int q = qq[i].second; if (identity) CHECK(sc.StateIndex(s) == (size_t)q, nm << ": state " << q << " has number " << sc.StateIndex(s));
		CHECK(sc.Final(s) == (a.fin.count(q) != 0), nm << ": final flag of state " << q << " is " << sc.Final(s)); if (hasDead) CHECK(sc.Dead(s) == (!fw[q] || !bw[q]), nm << ": dead flag of state " << q << " is " << sc.Dead(s)); else CHECK(!sc.Dead(s), nm << ": dead");
		auto acc = sc.AcceptedRegexps(s); CHECK((acc.second - acc.first) == (int)a.fin.count(q), nm << ": state " << q << " accepts " << (acc.second - acc.first) << " regexps"); if (acc.first != acc.second) CHECK(*acc.first == 0, nm << ": accepts regexp " << *acc.first);
		for (int c = 0; c < (int)MaxChar; ++c) { if (c == Epsilon) continue; auto it = a.tr[q].find(c); if (it == a.tr[q].end() || it->second.empty()) continue; int d = *it->second.begin();
			typename Sc::State t = s; sc.TakeAction(t, sc.Next(t, c)); auto ins = to.insert(std::make_pair(sc.StateIndex(t), d)); if (ins.second) qq.push_back(std::make_pair(t, d));
			CHECK(ins.first->second == d, nm << ": state " << q << " on " << show(Word(1, c)) << " moves to state " << ins.first->second << ", expected " << d); }
	}
	size_t live = 0; for (int i = 0; i < a.n; ++i) live += fw[i]; CHECK(to.size() == live, nm << ": " << to.size() << " states can be reached, " << live << " in the automaton");
}
static Nfa renumbered(const Nfa& a, const Fsm& f) { return from_fsm(f); }
VTESTW(compiled, 3) {
	Rng& r = c.rng; Nfa a = any_dfa(r); c.note(a.dump()); Fsm f = to_fsm(a); f.Canonize(); Nfa n = from_fsm(f); check_language(n, a, "Canonize");
	Fsm g(f); table(Pire::Scanner(g), n, "Scanner", true, false); g = f; table(Pire::ScannerNoMask(g), n, "ScannerNoMask", true, false); g = f; table(Pire::NonrelocScanner(g), n, "NonrelocScanner", true, false); g = f; table(Pire::NonrelocScannerNoMask(g), n, "NonrelocScannerNoMask", true, false);
	g = f; table(g.Compile<Pire::SimpleScanner>(), n, "SimpleScanner", false, false);
}
template<class Sc> void built(const Fsm& f, const Nfa& a, const char* nm) { Sc sc; sc.m_buffer.reset(); sc.Init(f.Size(), f.Letters(), f.Finals().size(), f.Initial(), 1); Pire::BuildScanner(f, sc); table(sc, a, nm, true);
	// the tables lie in the buffer, one after another
	const char* b = sc.m_buffer.get(); size_t n = sc.BufSize() + sizeof(size_t); const char *l = (char*)sc.m_letters, *fi = (char*)sc.m_final, *ix = (char*)sc.m_finalIndex, *t = (char*)sc.m_transitions;
	CHECK(b <= l && l + MaxChar * sizeof(*sc.m_letters) <= fi && fi + sc.m.finalTableSize * sizeof(size_t) <= ix && ix + sc.Size() * sizeof(size_t) <= t && t + sc.RowSize() * sc.Size() * sizeof(*sc.m_transitions) <= b + n, nm << ": the tables overlap or leave the buffer"); }
VTESTW(direct, 3) {
	Rng& r = c.rng; Nfa a = any_dfa(r); c.note(a.dump()); Fsm f = to_fsm(a); f.Sparse(); f.determined = true;
	switch (r.below(4)) { case 0: built<Pire::Scanner>(f, a, "Scanner"); break; case 1: built<Pire::ScannerNoMask>(f, a, "ScannerNoMask"); break; case 2: built<Pire::NonrelocScanner>(f, a, "NonrelocScanner"); break; default: built<Pire::NonrelocScannerNoMask>(f, a, "NonrelocScannerNoMask"); }
}
struct LS: public Pire::LoadedScanner { LS() {} };
VTESTW(loaded, 2) {
	Rng& r = c.rng; Nfa a = any_dfa(r); c.note(a.dump()); Fsm f = to_fsm(a); std::vector<int> tags(a.n); std::map<std::pair<int, int>, unsigned> outs; for (int s = 0; s < a.n; ++s) { if (r.chance(1, 2)) { tags[s] = r.below(256); f.SetTag(s, tags[s]); } for (auto& t : a.tr[s]) for (int d : t.second) if (!outs.count(std::make_pair(s, d))) { unsigned o = r.chance(1, 2) ? 0 : r.next(); outs[std::make_pair(s, d)] = o; if (o) f.SetOutput(s, d, o); } }
	f.Sparse(); f.determined = true; size_t cls = f.Letters().Size();
	LS sc; sc.m_buffer.reset(); sc.Init(f.Size(), f.Letters(), f.Initial(), 1); Pire::BuildScanner(f, static_cast<Pire::LoadedScanner&>(sc));
	if (cls > 256 && is_known("letters256")) { report_known("letters256", "LoadedScanner keeps letter classes in 8 bits: an automaton with more than 256 letter classes is compiled to a table in which classes 256 and up are taken for classes 0 and up"); return; }
	CHECK(sc.m.initial == (size_t)sc.m_jumps + a.init * sc.StateSize(), "initial state");
	for (int s = 0; s < a.n; ++s) { CHECK(sc.m_tags[s] == tags[s], "tag of state " << s); for (auto& t : a.tr[s]) { if (t.first == Epsilon || t.second.empty()) continue; int d = *t.second.begin(); auto& e = ((Pire::LoadedScanner::Transition*)((char*)sc.m_jumps + s * sc.StateSize()))[sc.m_letters[t.first]]; size_t to = (size_t)sc.m_jumps + s * sc.StateSize() + sc.SignExtend(e.shift);
		CHECK(sc.StateIdx(to) == (size_t)d && (to - (size_t)sc.m_jumps) % sc.StateSize() == 0, "state " << s << " on " << show(Word(1, t.first)) << " moves to " << sc.StateIdx(to) << ", expected " << d); CHECK(e.action == outs[std::make_pair(s, d)], "output of state " << s << " on " << show(Word(1, t.first))); } }
	const char* b = sc.m_buffer.get(); CHECK((char*)sc.m_letters == b && (char*)sc.m_jumps >= b + MaxChar && (char*)sc.m_tags >= (char*)sc.m_jumps + sc.Size() * sc.StateSize() && (char*)sc.m_tags + sc.Size() <= b + sc.BufSize(), "the tables overlap or leave the buffer");
}
// writing one state's row or flags leaves every other as it was
template<class Sc> void frame(Case& c, const char* nm) {
	Rng& r = c.rng; Nfa a = random_dfa(r, 9, 6); Fsm f = to_fsm(a); f.Sparse(); f.determined = true; Sc sc; sc.m_buffer.reset(); sc.Init(f.Size(), f.Letters(), f.Finals().size(), f.Initial(), 1); Pire::BuildScanner(f, sc); c.note(a.dump());
	for (int k = 0; k < 6; ++k) { size_t s = r.below(a.n), d = r.below(a.n); int ch = r.below(MaxChar); if (ch == Epsilon) continue; std::map<int, Set> row = a.tr[s]; for (auto& t : row) if (sc.m_letters[t.first] == sc.m_letters[ch]) { a.tr[s][t.first].clear(); a.edge(s, t.first, d); } sc.SetJump(s, ch, d);
		for (int q = 0; q < a.n; ++q) { auto st = sc.IndexToState(q); for (auto& t : a.tr[q]) { typename Sc::State x = st; sc.Next(x, t.first); CHECK(sc.StateIndex(x) == (size_t)*t.second.begin(), nm << ": after SetJump(" << s << ", " << ch << ", " << d << ") state " << q << " on " << t.first << " moves to " << sc.StateIndex(x)); } CHECK(sc.Final(st) == (a.fin.count(q) != 0), nm << ": final flag after SetJump"); } }
}
VTEST(frames) { frame<Pire::Scanner>(c, "Scanner"); frame<Pire::ScannerNoMask>(c, "ScannerNoMask"); frame<Pire::NonrelocScanner>(c, "NonrelocScanner"); frame<Pire::NonrelocScannerNoMask>(c, "NonrelocScannerNoMask"); }
VTEST(capture) {
	Rng& r = c.rng; Nfa a = any_dfa(r); c.note(a.dump()); Fsm f = to_fsm(a); f.Canonize(); if (f.Letters().Size() > 256) return; Nfa n = from_fsm(f); Pire::CapturingScanner sc(f); Pire::CapturingScanner::State st; sc.Initialize(st); int q = n.init;
	for (int i = 0; i < 20; ++i) { CHECK(sc.Final(st) == (n.fin.count(q) != 0), "final flag"); int ch = r.below(MaxChar); if (ch == Epsilon) continue; q = *n.tr[q][ch].begin(); Pire::Step(sc, st, ch); }
}
VMAIN
