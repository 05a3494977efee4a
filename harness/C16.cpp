#include "scan.h"
using namespace vh;
// the edits as an automaton over (state, edits made); swaps optional
static Nfa edits(const Nfa& a, int k, bool swaps) {
	Nfa r; r.resize(a.n * (k + 1)); r.init = a.init; auto at = [&](int s, int d) { return d * a.n + s; };
	for (int d = 0; d <= k; ++d) for (int s = 0; s < a.n; ++s) {
		if (a.fin.count(s)) r.fin.insert(at(s, d));
		for (auto& t : a.tr[s]) for (int q : t.second) { r.edge(at(s, d), t.first, at(q, d)); if (d < k && t.first != Epsilon) { r.edge(at(s, d), Epsilon, at(q, d + 1)); for (int c = 0; c < (int)MaxChar; ++c) if (c != Epsilon) r.edge(at(s, d), c, at(q, d + 1)); } }
		if (d < k) for (int c = 0; c < (int)MaxChar; ++c) if (c != Epsilon) r.edge(at(s, d), c, at(s, d + 1));
	}
	if (swaps) for (int d = 0; d < k; ++d) for (int s = 0; s < a.n; ++s) for (auto& t : a.tr[s]) { if (t.first == Epsilon) continue; Set mid = a.close(t.second);
		for (int m : mid) for (auto& u : a.tr[m]) { if (u.first == Epsilon) continue; for (int q : u.second) { int x = r.add(); r.edge(at(s, d), u.first, x); r.edge(x, t.first, at(q, d + 1)); } } }
	return r;
}
static Nfa small(Rng& r, bool eps) { GenOpt o; o.maxStates = 4; o.letters = 2; o.eps = eps; o.marks = r.chance(1, 3); Nfa a; if (r.chance(1, 2)) { a.resize(r.range(1, 5)); for (int i = 0; i + 1 < a.n; ++i) { a.edge(i, "abc"[r.below(3)], i + 1); if (r.chance(1, 4)) a.edge(i, "abc"[r.below(3)], r.below(a.n)); if (eps && r.chance(1, 5)) a.edge(r.below(a.n), Epsilon, r.below(a.n)); } a.fin.insert(a.n - 1); if (r.chance(1, 4)) a.fin.insert(r.below(a.n)); return a; }
	a.resize(r.range(1, 3)); int e = r.range(1, 6); for (int i = 0; i < e; ++i) a.edge(r.below(a.n), eps && r.chance(1, 6) ? (int)Epsilon : (r.chance(1, 8) ? (int)EndMark : "abz"[r.below(3)]), r.below(a.n)); if (r.chance(7, 8)) a.fin.insert(r.below(a.n)); return a; }
static void subset(const Nfa& a, const Nfa& b, const std::string& what) {
	// L(a) within L(b): a|b = b
	Word w; bool complete; if (!same_language(alt(a, b), b, w, complete, true, 1500)) fail(what + ": word '" + show(w) + "'");
}
VTESTW(distance, 3) {
	Rng& r = c.rng; bool eps = r.chance(1, 3); Nfa a = small(r, eps); int k = r.below(3); if (a.n > 4 && k > 1) k = 1; c.note(a.dump() + " k=" + str(k)); Fsm f = to_fsm(a); Fsm::TransitionTable before(f.m_transitions);
	Fsm g = Pire::CreateApproxFsm(f, k); CHECK(f.m_transitions == before, "the source automaton is changed"); Nfa got = from_fsm(g);
	subset(edits(a, k, false), got, "within the distance, but rejected"); subset(got, edits(a, k, true), "accepted, but farther than the distance");
	if (!eps) { Word w; bool complete; if (!same_language(got, edits(a, k, true), w, complete, true, 1500)) fail("distance with swaps: word '" + show(w) + "'"); }
	if (k == 0) check_language(got, a, "distance zero");
}
VTEST(compiled) {
	Rng& r = c.rng; Nfa a = small(r, false); int k = r.range(0, 2); c.note(a.dump() + " k=" + str(k)); Nfa lo = edits(a, k, true); Fsm f = to_fsm(a); Pire::Scanner s(f, k); std::vector<const Nfa*> as(1, &a); std::vector<int> al = reps(as); al.push_back('q');
	for (int i = 0; i < 20; ++i) { Word w = random_word(r, al, 7); Pire::Scanner::State st; s.Initialize(st); for (Char x : w) Pire::Step(s, st, x); CHECK(s.Final(st) == lo.accepts(w), "Compile with distance " << k << ": word '" << show(w) << "'"); }
}
VTEST(prepared) {
	Rng& r = c.rng; std::string p = r.chance(1, 2) ? "ab" : r.chance(1, 2) ? "a*b" : "a(b|c)"; Fsm f = lex(p); Nfa a = from_fsm(f); if (r.chance(1, 2)) f.Canonize(); else if (r.chance(1, 2)) f.Determine(); else f.RemoveEpsilons(); int k = r.range(0, 2); c.note(p + " k=" + str(k));
	Nfa b = from_fsm(f); Nfa got = from_fsm(Pire::CreateApproxFsm(f, k)); subset(edits(a, k, false), got, "within the distance, but rejected"); subset(got, edits(a, k, true), "accepted, but farther than the distance");
}
VMAIN
