#include <functional>
#include "scan.h"
using namespace vh;
// determinization against the subset construction
typedef std::map< std::pair<int, int>, unsigned long > Outs;
struct In { Nfa n; std::map<int, unsigned long> tags; Outs out; Fsm f; };
static In make(Rng& r, bool outs, bool eps) {
	In x; GenOpt o; o.maxStates = r.chance(1, 4) ? 9 : 5; o.letters = 4; o.eps = eps; x.n = random_nfa(r, o);
	if (eps && r.chance(1, 6)) { x.n.init = r.below(x.n.n); int c = 'a'; for (int i = 0; i + 1 < x.n.n; ++i) x.n.edge(i, Epsilon, i + 1); if (r.chance(1, 2)) x.n.edge(x.n.n - 1, Epsilon, 0); (void)c; }
	x.f = to_fsm(x.n);
	if (outs) {
		for (int s = 0; s < x.n.n; ++s) { for (auto& t : x.n.tr[s]) for (int d : t.second) if (r.chance(1, 8)) { unsigned long v = 1ul << r.below(4); x.out[std::make_pair(s, d)] = v; } }
		for (auto& o : x.out) x.f.SetOutput(o.first.first, o.first.second, o.second);
		if (r.chance(1, 2)) for (int s = 0; s < x.n.n; ++s) if (r.chance(1, 2)) { x.tags[s] = 1ul << (8 + r.below(4)); x.f.SetTag(s, x.tags[s]); }
	}
	return x;
}
static void deterministic(const Fsm& f, const std::string& what) {
	CHECK(f.IsDetermined(), what << ": not marked as determined");
	for (size_t s = 0; s < f.Size(); ++s) for (int c = 0; c < (int)MaxChar; ++c) {
		const Fsm::StatesSet& d = f.Destinations(s, c);
		if (c == Epsilon) CHECK(d.empty(), what << ": an epsilon transition is left in state " << s);
		CHECK(d.size() <= 1, what << ": state " << s << " has " << d.size() << " successors on " << show(Word(1, c)));
	}
}
static void state_index(const Fsm& f, const std::string& what) { for (size_t s = 0; s < f.Size(); ++s) for (auto& t : f.m_transitions[s]) for (auto d : t.second) CHECK(d < f.Size(), what << ": transition to a state that does not exist"); CHECK(f.Initial() < f.Size(), what << ": initial state does not exist"); for (auto i : f.Finals()) CHECK(i < f.Size(), what << ": final state does not exist"); }
VTESTW(languages, 3) {
	Rng& r = c.rng; In x = make(r, false, true); c.note(x.n.dump());
	if (r.chance(1, 4)) { Fsm g(x.f); g.RemoveEpsilons(); Nfa got = from_fsm(g); for (int s = 0; s < got.n; ++s) CHECK(!got.tr[s].count(Epsilon), "RemoveEpsilons left an epsilon transition"); check_language(got, x.n, "RemoveEpsilons"); }
	CHECK(x.f.Determine(), "Determine reports failure without reason");
	state_index(x.f, "Determine"); deterministic(x.f, "Determine");
	check_language(from_fsm(x.f), x.n, "Determine");
}
VTEST(limits) {
	Rng& r = c.rng; In x = make(r, false, true); Fsm full(x.f); full.Determine(); size_t n = full.Size(); size_t lim = r.range(1, (int)n + 2); c.note(x.n.dump()); c.note("limit " + str(lim) + " of " + str(n));
	bool ok = x.f.Determine(lim);
	CHECK(ok == (n <= lim + 1), "Determine(" << lim << ") on an automaton whose determinization has " << n << " states returns " << ok);
	if (!ok) CHECK(!x.f.IsDetermined(), "marked as determined after a failure");
	check_language(from_fsm(x.f), x.n, ok ? "Determine" : "after a failed Determine");
	if (!ok) { CHECK(x.f.Determine(), "Determine after a failed one"); check_language(from_fsm(x.f), x.n, "Determine after a failed one"); deterministic(x.f, "Determine after a failed one"); }
}
// outputs of transitions and tags of states: of all that a word can pass, none is lost
VTESTW(payload, 2) {
	Rng& r = c.rng; bool eps = r.chance(1, 2); In x = make(r, true, eps); std::string d = x.n.dump(); for (auto& o : x.out) d += " out(" + str(o.first.first) + "," + str(o.first.second) + ")=" + str(o.second); for (auto& t : x.tags) d += " tag(" + str(t.first) + ")=" + str(t.second); c.note(d);
	Fsm f(x.f); CHECK(f.Determine(), "Determine reports failure");
	deterministic(f, "Determine"); check_language(from_fsm(f), x.n, "Determine");
	// outputs gathered on the way to a state by epsilon transitions: o(i,j) for every pair
	int n = x.n.n; std::vector< std::vector<unsigned long> > eo(n, std::vector<unsigned long>(n, 0)); std::vector< std::vector<bool> > er(n, std::vector<bool>(n, false));
	for (int i = 0; i < n; ++i) er[i][i] = true;
	// along the simple epsilon paths
	{ std::vector<bool> on(n, false); std::function<void(int, int, unsigned long)> go = [&](int i, int j, unsigned long v) { er[i][j] = true; eo[i][j] |= v; on[j] = true; auto t = x.n.tr[j].find(Epsilon); if (t != x.n.tr[j].end()) for (int k : t->second) if (!on[k]) { auto o = x.out.find(std::make_pair(j, k)); go(i, k, v | (o == x.out.end() ? 0 : o->second)); } on[j] = false; }; for (int i = 0; i < n; ++i) go(i, i, 0); }
	// walk both
	std::vector<const Nfa*> as(1, &x.n); std::vector<int> al = reps(as);
	for (int w = 0; w < 20; ++w) {
		Set cur; cur.insert(x.n.init); size_t st = f.Initial();
		for (int step = 0; step < 6; ++step) {
			bool terminal = false; Set full = x.n.close(cur);
			for (int i : full) { Set one; one.insert(i); one = x.n.close(one); bool all = false; for (int q : one) all = all || x.n.fin.count(q);
				for (size_t k = 0; k < al.size() && all; ++k) { all = false; for (int q : one) { auto t = x.n.tr[q].find(al[k]); all = all || (t != x.n.tr[q].end() && t->second.count(i)); } } if (all) terminal = true; }
			if (!terminal || step == 0) { unsigned long want = 0; for (int i : full) { auto t = x.tags.find(i); if (t != x.tags.end()) want |= t->second; } unsigned long tg = f.Tag(st); CHECK(tg == want, "tag of the determined state is " << tg << ", tags of its members make " << want); }
			if (terminal) break;
			int ch = al[r.below(al.size())]; const Fsm::StatesSet& dst = f.Destinations(st, ch); Set nxt; unsigned long must = 0;
			for (int i : cur) for (int j = 0; j < n; ++j) if (er[i][j]) { auto t = x.n.tr[j].find(ch); if (t == x.n.tr[j].end()) continue; for (int k : t->second) { nxt.insert(k); auto o = x.out.find(std::make_pair(j, k)); must |= eo[i][j] | (o == x.out.end() ? 0 : o->second); } }
			CHECK(dst.size() == 1, "no successor"); size_t to = *dst.begin(); unsigned long got = f.Output(st, to);
			CHECK((got & must) == must, "outputs lost: transition on " << show(Word(1, ch)) << " carries " << got << ", the automaton's own transitions carry " << must);
			if (!eps) { unsigned long may = 0; for (int i : cur) for (int k : nxt) { auto o = x.out.find(std::make_pair(i, k)); if (o != x.out.end()) may |= o->second; } CHECK((got & ~may) == 0, "outputs invented: " << got << " of " << may); }
			cur = nxt; st = to;
		}
	}
}
VMAIN
