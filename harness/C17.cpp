#include "scan.h"
using namespace vh;
typedef Pire::HalfFinalFsm HF;
static bool proper_suffix(const Nfa& a, const Word& w, size_t from, size_t to, bool nonempty) { for (size_t s = from; s + nonempty <= to; ++s) if (a.accepts(Word(w.begin() + s, w.begin() + to))) return true; return false; }
// the multiplicities the automaton prescribes, character by character
struct Walk { const HF& f; size_t q; size_t sum; Walk(const HF& h): f(h), q(h.GetFsm().Initial()), sum(h.GetCount(q)) {}
	bool step(Char c) { const auto& t = f.GetFsm().Destinations(q, c); CHECK(t.size() < 2, "automaton is not deterministic"); if (t.empty()) return false; q = *t.begin(); sum += f.GetCount(q); return true; } };
static std::string mode(HF& h, int m) {
	switch (m) { case 0: h.MakeScanner(); return "MakeScanner"; case 1: h.MakeNonGreedyCounter(true, true); return "MakeNonGreedyCounter(true, true)"; case 2: h.MakeNonGreedyCounter(true, false); return "MakeNonGreedyCounter(true, false)";
		case 3: h.MakeNonGreedyCounter(false); return "MakeNonGreedyCounter(false)"; case 4: h.MakeGreedyCounter(true); return "MakeGreedyCounter(true)"; default: h.MakeGreedyCounter(false); return "MakeGreedyCounter(false)"; }
}
template<class Sc> void words(const HF& h, Rng& r, const std::vector<int>& al, const Nfa& lang, int m, const std::string& nm) {
	Sc sc = r.chance(1, 4) ? h.Compile<Sc>() : Sc(h); std::vector<bool> live = backward(from_fsm(h.GetFsm()));
	for (int k = 0; k < 4; ++k) {
		typename Sc::State st, run; sc.Initialize(st); run = st; Walk wk(h); Word w; std::string text; bool bytes = r.chance(1, 2); size_t greedyFrom = 0, leftmost = 0, ends = lang.accepts(w);
		int n = r.below(r.chance(1, 5) ? 60 : 14);
		for (int i = 0; ; ++i) {
			std::string at = nm + " after " + show(w);
			CHECK(sc.StateIndex(st) == wk.q, at << ": state " << sc.StateIndex(st) << ", expected " << wk.q); CHECK(st.Result(0) == wk.sum, at << ": result " << st.Result(0) << ", the automaton counts " << wk.sum);
			CHECK(sc.Final(st) == h.GetFsm().IsFinal(wk.q), at << ": Final() is " << sc.Final(st)); if (sc.Dead(st)) CHECK(!live[wk.q] , at << ": a live state is called dead");
			if (m == 2) CHECK(st.Result(0) == ends, at << ": result " << st.Result(0) << ", " << ends << " positions end a match");
			if (m == 3) CHECK(st.Result(0) == leftmost, at << ": result " << st.Result(0) << ", " << leftmost << " matches without intersections");
			auto ids = sc.AcceptedRegexps(st); CHECK((ids.second - ids.first) == (wk.sum ? 1 : 0) && (!wk.sum || *ids.first == 0), at << ": AcceptedRegexps()");
			if (bytes) { typename Sc::State s2 = run; Guarded g(text, r.below(16), r.chance(1, 2), 0x61); Pire::Run(sc, s2, g.b, g.e); CHECK(s2 == st, at << ": Run() gives " << s2.Result(0) << " in state " << sc.StateIndex(s2)); }
			if (i >= n) break;
			int c = al[r.below(al.size())]; if (bytes && c > 255) continue; if (!wk.step(c)) break;
			w.push_back(c); text += (char)c; Pire::Step(sc, st, c);
			if (proper_suffix(lang, w, 0, w.size(), false)) ++ends; if (proper_suffix(lang, w, greedyFrom, w.size(), true)) { ++leftmost; greedyFrom = w.size(); }
		}
	}
}
template<class Sc> void glued(const std::vector<HF>& hs, Rng& r, const std::vector<int>& al, const std::string& nm) {
	std::vector<Sc> sc; for (auto& h : hs) sc.push_back(Sc(h)); Sc g = r.chance(1, 2) ? sc[0] : Sc(sc[0]);
	for (size_t i = 1; i < sc.size(); ++i) g = Sc::Glue(g, sc[i]);
	if (g.Empty()) return; CHECK(g.RegexpsCount() == sc.size(), nm << ": " << g.RegexpsCount() << " regexps");
	for (int k = 0; k < 4; ++k) { typename Sc::State s; g.Initialize(s); std::vector<typename Sc::State> p(sc.size()); for (size_t i = 0; i < sc.size(); ++i) sc[i].Initialize(p[i]); Word w;
		for (int i = 0; i < 16; ++i) {
			size_t fin = 0, dead = 0; for (size_t j = 0; j < sc.size(); ++j) { CHECK(s.Result(j) == p[j].Result(0), nm << " glued: result " << j << " is " << s.Result(j) << ", alone " << p[j].Result(0) << " after " << show(w)); fin += sc[j].Final(p[j]); dead += sc[j].Dead(p[j]); }
			CHECK(g.Final(s) == (fin != 0), nm << " glued: Final()"); if (g.Dead(s)) CHECK(dead == sc.size(), nm << " glued: Dead()");
			int c = al[r.below(al.size())]; w.push_back(c); Pire::Step(g, s, c); for (size_t j = 0; j < sc.size(); ++j) Pire::Step(sc[j], p[j], c); } }
}
static Nfa lang(Rng& r) { GenOpt o; o.maxStates = 4; o.letters = 3; o.marks = r.chance(1, 4); Nfa a = r.chance(1, 2) ? random_nfa(r, o) : random_dfa(r, 4, 3, false); if (r.chance(1, 2)) { Nfa d = det(a); if (d.fin.count(d.init) && d.n > 1) d.fin.erase(d.init); return d; } return a; }
VTESTW(counts, 3) {
	Rng& r = c.rng; Nfa a = lang(r); Fsm f = to_fsm(a); HF h(f); int m = r.below(6); c.note(a.dump()); std::string nm = mode(h, m); c.note(nm);
	if (m == 2 || m == 3) { Nfa chk = a; if (chk.fin.empty()) return; }
	bool empty = a.accepts(Word()); if (m == 3 && empty) m = 13; std::vector<const Nfa*> as(1, &a); std::vector<int> al = reps(as);
	switch (r.below(4)) { case 0: words<Pire::HalfFinalScanner>(h, r, al, a, m, nm); break; case 1: words<Pire::HalfFinalScannerNoMask>(h, r, al, a, m, nm); break; case 2: words<Pire::NonrelocHalfFinalScanner>(h, r, al, a, m, nm); break; default: words<Pire::NonrelocHalfFinalScannerNoMask>(h, r, al, a, m, nm); }
}
VTEST(glue) {
	Rng& r = c.rng; std::vector<Nfa> as(r.range(2, 3)); std::vector<HF> hs; std::string nm; std::vector<const Nfa*> ps; for (auto& a : as) { a = lang(r); ps.push_back(&a); HF h(to_fsm(a)); nm += mode(h, r.below(6)) + " "; c.note(a.dump()); if (h.GetFsm().Size() > 60) return; hs.push_back(h); }
	c.note(nm); for (auto& h : hs) { const Fsm& f = h.GetFsm(); for (size_t s = 0; s < f.Size(); ++s) for (auto& l : f.Letters()) if (f.Destinations(s, l.first).empty()) return; }
	std::vector<int> al = reps(ps); if (r.chance(1, 2)) glued<Pire::HalfFinalScanner>(hs, r, al, nm); else glued<Pire::NonrelocHalfFinalScannerNoMask>(hs, r, al, nm);
}
// the scanner made from a plain automaton: a match is seen at the end mark, or whenever the automaton allows it
VTEST(plain) {
	Rng& r = c.rng; Nfa a = lang(r); Fsm f = to_fsm(a); c.note(a.dump()); HF h(f); h.MakeScanner(); Pire::HalfFinalScanner sc(f); std::vector<const Nfa*> as(1, &a); std::vector<int> al = reps(as);
	CHECK(sc.Size() == h.GetFsm().Size(), "size"); for (int k = 0; k < 4; ++k) { Pire::HalfFinalScanner::State s; sc.Initialize(s); Walk wk(h); for (int i = 0; i < 14; ++i) { CHECK(s.Result(0) == wk.sum, "result " << s.Result(0) << " expected " << wk.sum); int ch = al[r.below(al.size())]; if (!wk.step(ch)) break; Pire::Step(sc, s, ch); } }
	// gluing by hand: results of a state survive copies
	Pire::HalfFinalScanner::State s, t; sc.Initialize(s); t = s; for (int i = 0; i < 3; ++i) Pire::Step(sc, s, al[r.below(al.size())]); Pire::HalfFinalScanner::State u(s); CHECK(u == s && !(u != s), "a copied state differs"); sc.Initialize(s); CHECK(s == t, "Initialize() does not start afresh");
}
VMAIN
