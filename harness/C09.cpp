#include "scan.h"
using namespace vh;
// minimization: the same words, no two equivalent states, the same form for renumbered automata
static size_t equivalent_pair(const Nfa& a, int& p, int& q) {
	std::vector<const Nfa*> as(1, &a); std::vector<int> al = reps(as); std::vector<int> cls(a.n); size_t k = 0;
	for (int i = 0; i < a.n; ++i) cls[i] = a.fin.count(i);
	for (;;) {
		std::map<std::vector<int>, int> m; std::vector<int> nc(a.n);
		for (int i = 0; i < a.n; ++i) { std::vector<int> s(1, cls[i]); for (size_t l = 0; l < al.size(); ++l) { auto t = a.tr[i].find(al[l]); s.push_back(t == a.tr[i].end() || t->second.empty() ? -1 : cls[*t->second.begin()]); } nc[i] = m.insert(std::make_pair(s, (int)m.size())).first->second; }
		cls = nc; if (m.size() == k) break; k = m.size();
	}
	for (int i = 0; i < a.n; ++i) for (int j = 0; j < i; ++j) if (cls[i] == cls[j]) { p = j; q = i; return 1; }
	return 0;
}
static void check_min(const Fsm& f, const Nfa& want, const std::string& what) {
	CHECK(f.IsDetermined(), what << ": no longer determined");
	for (size_t s = 0; s < f.Size(); ++s) for (int c = 0; c < (int)MaxChar; ++c) CHECK(f.Destinations(s, c).size() <= 1, what << ": not deterministic");
	Nfa m = from_fsm(f); check_language(m, want, what);
	int p, q; CHECK(!equivalent_pair(m, p, q), what << ": states " << p << " and " << q << " are equivalent");
}
static bool isomorphic(const Nfa& a, const Nfa& b) {
	if (a.n != b.n || a.fin.size() != b.fin.size()) return false;
	std::vector<int> m(a.n, -1), qq(1, a.init); m[a.init] = b.init;
	while (!qq.empty()) { int x = qq.back(); qq.pop_back(); int y = m[x]; if (a.fin.count(x) != b.fin.count(y)) return false;
		for (auto& t : a.tr[x]) { if (t.second.empty()) continue; auto u = b.tr[y].find(t.first); if (u == b.tr[y].end() || u->second.empty()) return false; int d = *t.second.begin(), e = *u->second.begin(); if (m[d] < 0) { m[d] = e; qq.push_back(d); } else if (m[d] != e) return false; } }
	return true;
}
static Nfa renumber(Rng& r, const Nfa& a) {
	std::vector<int> p(a.n); for (int i = 0; i < a.n; ++i) p[i] = i; for (int i = a.n - 1; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
	Nfa b; b.resize(a.n); b.init = p[a.init]; for (int f : a.fin) b.fin.insert(p[f]); for (int s = 0; s < a.n; ++s) for (auto& t : a.tr[s]) for (int d : t.second) b.edge(p[s], t.first, p[d]); return b;
}
// a deterministic automaton with many equivalent states: a small one unfolded
static Nfa unfold(Rng& r, const Nfa& a, int k) {
	Nfa b; b.resize(a.n * k); b.init = a.init * k + r.below(k); std::vector<const Nfa*> as(1, &a); 
	for (int s = 0; s < a.n; ++s) for (int i = 0; i < k; ++i) { if (a.fin.count(s)) b.fin.insert(s * k + i); std::map<int, int> at; int mode = r.below(3);
		for (auto& t : a.tr[s]) for (int d : t.second) { int j; if (mode == 0) { if (!at.count(d)) at[d] = r.below(k); j = at[d]; } else if (mode == 1) j = i; else j = r.chance(1, 20) ? r.below(k) : (i + 1) % k; b.edge(s * k + i, t.first, d * k + j); } }
	return b;
}
VTESTW(languages, 3) {
	Rng& r = c.rng; Nfa a = r.chance(1, 2) ? random_dfa(r, 6, 4) : random_nfa(r); c.note(a.dump());
	Fsm f = to_fsm(a); CHECK(f.Determine(), "Determine"); f.Minimize(); check_min(f, a, "Minimize");
	if (r.chance(1, 2)) { Fsm g = to_fsm(renumber(r, a)); g.Canonize(); check_min(g, a, "Canonize of the renumbered automaton"); CHECK(isomorphic(from_fsm(f), from_fsm(g)), "minimal automata of the same automaton with states renumbered differ"); }
	if (r.chance(1, 4)) { size_t n = f.Size(); f.Minimize(); CHECK(f.Size() == n, "minimizing again changes the size"); check_min(f, a, "Minimize twice"); }
}
VTESTW(unfolded, 2) {
	Rng& r = c.rng; Nfa a = random_dfa(r, r.range(2, 6), 3); int k = r.range(2, 5); Nfa b = unfold(r, a, k); c.note(a.dump() + " unfolded " + str(k));
	check_language(b, a, "unfolding (reference)");
	Fsm f = to_fsm(b); CHECK(f.Determine(), "Determine"); f.Minimize(); check_min(f, a, "Minimize"); 
	Fsm g = to_fsm(a); g.Canonize(); CHECK(g.Size() == f.Size(), "minimal sizes of an automaton and its unfolding differ: " << g.Size() << " and " << f.Size());
}
// dead states stay dead, transitions keep at least their outputs, states their tags
VTEST(payload) {
	Rng& r = c.rng; Nfa a0 = random_dfa(r, 5, 3); Fsm f0 = to_fsm(a0); f0.Determine(); Fsm f(f0);
	std::string d = a0.dump(); for (size_t s = 0; s < f.Size(); ++s) for (auto& t : f.m_transitions[s]) for (auto to : t.second) if (r.chance(1, 30)) { unsigned long v = 1ul << r.below(3); f.SetOutput(s, to, v); d += " out(" + str(s) + "," + str(to) + ")=" + str(v); }
	for (size_t s = 0; s < f.Size(); ++s) if (r.chance(1, 3)) { f.SetTag(s, 4ul << r.below(3)); d += " tag(" + str(s) + ")=" + str(f.Tag(s)); }
	c.note(d); Fsm m(f); m.Minimize(); check_language(from_fsm(m), from_fsm(f), "Minimize");
	Nfa a = from_fsm(f); std::vector<const Nfa*> as(1, &a); std::vector<int> al = reps(as);
	for (int w = 0; w < 10; ++w) { size_t x = f.Initial(), y = m.Initial();
		for (int i = 0; i < 8; ++i) {
			CHECK((m.Tag(y) & f.Tag(x)) == f.Tag(x), "tag " << f.Tag(x) << " of a state is lost: " << m.Tag(y));
			int ch = al[r.below(al.size())]; size_t x2 = *f.Destinations(x, ch).begin(), y2 = *m.Destinations(y, ch).begin(); unsigned long want = f.Output(x, x2), got = m.Output(y, y2);
			CHECK((got & want) == want, "output " << want << " of the transition from state " << x << " on " << show(Word(1, ch)) << " is lost: " << got);
			x = x2; y = y2; } }
}
VMAIN
