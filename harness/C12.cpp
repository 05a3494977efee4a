#include "scan.h"
using namespace vh;
typedef Pire::CountingScanner Cnt; typedef Pire::AdvancedCountingScanner Adv; typedef Pire::NoGlueLimitCountingScanner Ngl;
// counters kept by hand: (current, best) of every regexp
struct Ref { std::vector<unsigned> cur, best; Ref(size_t n): cur(n, 0), best(n, 0) {} void inc(size_t i) { ++cur[i]; } void reset(size_t i) { best[i] = std::max(best[i], cur[i]); cur[i] = 0; } unsigned result(size_t i) const { return std::max(cur[i], best[i]); } };
struct Table { Nfa a; Fsm f; size_t n; std::map<std::pair<size_t, Char>, std::pair<size_t, unsigned> > t; std::vector<unsigned> acts; };
template<class Sc> void fill(Case& c, Sc& sc, Table& x, size_t rc, bool lists) {
	Rng& r = c.rng; x.a = random_dfa(r, 6, 3); x.f = to_fsm(x.a); x.f.Determine(); x.n = rc; sc.Init(x.f.Size(), x.f.Letters(), x.f.Initial(), rc); c.note(x.a.dump()); c.note(str(rc) + " regexps");
	std::vector<unsigned> offs; x.acts.assign(1, 1);
	if (lists) { for (int k = r.range(1, 6); k--;) { offs.push_back(x.acts.size()); for (int part = 0; part < 2; ++part) { std::vector<unsigned> ids; for (size_t i = 0; i < rc; ++i) if (r.chance(1, 3)) ids.push_back(i); x.acts.push_back(ids.size()); x.acts.insert(x.acts.end(), ids.begin(), ids.end()); } } x.acts[0] = x.acts.size(); }
	for (size_t s = 0; s < x.f.Size(); ++s) for (auto& l : x.f.Letters()) {
		size_t to = *x.f.Destinations(s, l.first).begin(); unsigned act = 0;
		if (lists) act = r.chance(2, 3) ? offs[r.below(offs.size())] : 0; else for (size_t i = 0; i < rc; ++i) { if (r.chance(1, 3)) act |= 1u << i; if (r.chance(1, 5)) act |= 1u << (16 + i); }
		sc.SetJump(s, l.first, to, act); for (Char ch : l.second.second) x.t[std::make_pair(s, ch)] = std::make_pair(to, act); }
}
template<class Sc, class Take> void walk(Case& c, const Sc& sc, Table& x, const char* name, Take take) {
	Rng& r = c.rng; std::vector<const Nfa*> as(1, &x.a); std::vector<int> al = reps(as);
	for (int w = 0; w < 6; ++w) {
		typename Sc::State st; sc.Initialize(st); typename Sc::State from = st; Ref ref(x.n); size_t s = x.f.Initial(); std::string t, text; bool marks = r.chance(1, 2);
		for (int i = 0; i < 24; ++i) { for (size_t k = 0; k < x.n; ++k) CHECK(st.Result(k) == ref.result(k), name << ": Result(" << k << ") is " << st.Result(k) << ", expected " << ref.result(k) << " after '" << t << "'"); CHECK(sc.StateIndex(st) == s, name << ": state after '" << t << "'");
			int ch = al[r.below(al.size())]; if (!marks && ch > 255) continue; t += show(Word(1, ch)); auto tr = x.t[std::make_pair(s, (Char)ch)]; s = tr.first; take(ref, tr.second); Pire::Step(sc, st, ch); text += (char)ch; }
		if (!marks) { typename Sc::State q = from; Guarded g(text, r.below(8), true, 0xff); Pire::Run(sc, q, g.b, g.e); for (size_t k = 0; k < x.n; ++k) CHECK(q.Result(k) == ref.result(k), name << ": Run gives Result(" << k << ") " << q.Result(k) << ", expected " << ref.result(k)); }
	}
}
static void incs(Ref& r, unsigned a) { for (size_t i = 0; i < r.cur.size(); ++i) if (a >> i & 1) r.inc(i); }
static void resets(Ref& r, unsigned a) { for (size_t i = 0; i < r.cur.size(); ++i) if (a >> (16 + i) & 1) r.reset(i); }
static size_t some(Rng& r) { return r.chance(1, 4) ? 16 : r.chance(1, 3) ? 1 : r.range(1, 16); }
VTEST(counting) { Cnt sc; Table x; fill(c, sc, x, some(c.rng), false); walk(c, sc, x, "CountingScanner", [](Ref& r, unsigned a) { incs(r, a); resets(r, a); }); }
VTEST(advanced) { Adv sc; Table x; fill(c, sc, x, some(c.rng), false); walk(c, sc, x, "AdvancedCountingScanner", [](Ref& r, unsigned a) { resets(r, a); incs(r, a); }); }
VTEST(nolimit) {
	Ngl sc; Table x; Rng& r = c.rng;
	if (r.chance(1, 4)) { // one regexp, actions are bits
		x.a = random_dfa(r, 6, 3); x.f = to_fsm(x.a); x.f.Determine(); x.n = 1; sc.Init(x.f.Size(), x.f.Letters(), x.f.Initial(), 1); c.note(x.a.dump());
		for (size_t s = 0; s < x.f.Size(); ++s) for (auto& l : x.f.Letters()) { size_t to = *x.f.Destinations(s, l.first).begin(); unsigned act = r.below(4); sc.SetJump(s, l.first, to, act); for (Char ch : l.second.second) x.t[std::make_pair(s, ch)] = std::make_pair(to, act); }
		walk(c, sc, x, "NoGlueLimitCountingScanner", [](Ref& r, unsigned a) { if (a & 2) r.reset(0); if (a & 1) r.inc(0); });
	} else { fill(c, sc, x, r.range(1, 40), true); sc.AcceptActions(x.acts); Ngl copy(sc); const std::vector<unsigned>& A = x.acts;
		walk(c, r.chance(1, 2) ? sc : copy, x, "NoGlueLimitCountingScanner", [&](Ref& r, unsigned a) { if (!a) return; size_t p = a; for (unsigned n = A[p++]; n--;) r.reset(A[p++]); for (unsigned n = A[p++]; n--;) r.inc(A[p++]); }); }
}
static const char* const RE[] = { "[a-z]+", "ab", "a", "a+b", "[ab]+", "(ab|c)", "\\d+", "x" }; static const char* const SEP[] = { "\\s", ".*", "\\s*", "[,;]", ".", "" };
template<class Sc> Sc count(const char* re, const char* sep) { return Sc(lex(re), lex(sep)); }
// the counting scanners of one pattern agree; glued ones report what each part reports
template<class Sc> void glued(Case& c, const char* name, bool many) {
	Rng& r = c.rng; int n = many ? r.range(2, 20) : r.range(2, 4); static std::map<std::pair<int, int>, Sc> cache; std::vector<Sc> parts; std::string d = name;
	for (int i = 0; i < n; ++i) { int p = r.below(many ? 3 : 8), q = r.below(many ? 2 : 6); if (!cache.count(std::make_pair(p, q))) cache.insert(std::make_pair(std::make_pair(p, q), count<Sc>(RE[p], SEP[q]))); parts.push_back(cache.find(std::make_pair(p, q))->second); d += std::string(" /") + RE[p] + "/ by /" + SEP[q] + "/"; }
	c.note(d); Sc g; bool right = r.chance(1, 3);
	if (right) { g = parts.back(); for (int i = n - 2; i >= 0; --i) g = Sc::Glue(parts[i], g, 60000); } else { g = parts[0]; for (int i = 1; i < n; ++i) g = Sc::Glue(g, parts[i], 60000); }
	if (g.Empty()) return; CHECK(g.RegexpsCount() == (size_t)n, "RegexpsCount"); const char al[] = "aabbc ,;12xz  ab";
	for (int w = 0; w < 4; ++w) { std::string t; int len = r.below(40); for (int i = 0; i < len; ++i) t += al[r.below(sizeof al - 1)]; bool marks = r.chance(1, 2);
		auto go = [&](const Sc& s) { typename Sc::State st; s.Initialize(st); if (marks) Pire::Step(s, st, Pire::BeginMark); Pire::Run(s, st, t.data(), t.data() + t.size()); if (marks) Pire::Step(s, st, Pire::EndMark); return st; };
		auto all = go(g); for (int i = 0; i < n; ++i) { auto one = go(parts[i]); CHECK(all.Result(i) == one.Result(0), name << ": glued Result(" << i << ") is " << all.Result(i) << ", alone " << one.Result(0) << " on '" << t << "'"); } }
}
VTEST(glue_counting) { glued<Cnt>(c, "CountingScanner", false); } VTEST(glue_advanced) { glued<Adv>(c, "AdvancedCountingScanner", false); } VTEST(glue_nolimit) { glued<Ngl>(c, "NoGlueLimitCountingScanner", c.rng.chance(1, 3)); }
VTEST(same_counts) {
	Rng& r = c.rng; int p = r.below(8), q = r.below(6); static std::map<std::pair<int, int>, std::pair<Adv, Ngl> > cache; auto k = std::make_pair(p, q); if (!cache.count(k)) cache.insert(std::make_pair(k, std::make_pair(count<Adv>(RE[p], SEP[q]), count<Ngl>(RE[p], SEP[q])))); auto& pr = cache.find(k)->second; c.note(std::string(RE[p]) + " by " + SEP[q]);
	const char al[] = "aabbc ,;12xz  ab"; for (int w = 0; w < 8; ++w) { std::string t; int len = r.below(40); for (int i = 0; i < len; ++i) t += al[r.below(sizeof al - 1)]; Adv::State a; Ngl::State b; pr.first.Initialize(a); pr.second.Initialize(b); Pire::Run(pr.first, a, t.data(), t.data() + t.size()); Pire::Run(pr.second, b, t.data(), t.data() + t.size()); CHECK(a.Result(0) == b.Result(0), "advanced " << a.Result(0) << ", without limit " << b.Result(0) << " on '" << t << "'"); }
}
VMAIN
