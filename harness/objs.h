// Scanners of every kind as objects: makers, and the behaviour of an object as a trace (every reachable
// state, every character: successor, action, flags, accepted regexps; plus results on random texts).
#pragma once
#include "scan.h"
namespace vh {
typedef std::vector<unsigned> Trace;
typedef Pire::CountingScanner Cnt; typedef Pire::AdvancedCountingScanner Adv; typedef Pire::NoGlueLimitCountingScanner Ngl; typedef Pire::CapturingScanner Cap; typedef Pire::SlowScanner Slow; typedef Pire::SimpleScanner Simple; typedef Pire::SlowCapturingScanner SlowCap;
static const size_t kStates = 40;
template<class P> void accepted(Trace& t, const P& p) { for (auto i = p.first; i != p.second; ++i) t.push_back(*i); t.push_back(0xacce); }
// scanners whose state is an address
template<class Sc> Trace trace_addr(const Sc& sc) {
	Trace t; t.push_back(sc.Size()); t.push_back(sc.Empty()); t.push_back(sc.RegexpsCount()); std::map<size_t, size_t> num; std::vector<size_t> st; size_t q; sc.Initialize(q); num[q] = 0; st.push_back(q);
	for (size_t i = 0; i < st.size(); ++i) { t.push_back(sc.StateIndex(st[i])); t.push_back(sc.Final(st[i])); t.push_back(sc.Dead(st[i])); accepted(t, sc.AcceptedRegexps(st[i]));
		for (unsigned c = 0; c < MaxChar; ++c) if (c != Epsilon) { size_t x = st[i]; t.push_back(sc.Next(x, c)); auto f = num.find(x); if (f == num.end() && st.size() < kStates) { f = num.insert(std::make_pair(x, st.size())).first; st.push_back(x); } t.push_back(f == num.end() ? sc.StateIndex(x) + 100000 : f->second); } }
	return t;
}
template<class R, class S> Trace trace(const Pire::Impl::Scanner<R, S>& sc, unsigned) { return trace_addr(sc); }
inline Trace trace(const Simple& sc, unsigned) { return trace_addr(sc); }
template<class R, class S> Trace trace(const Pire::Impl::HalfFinalScanner<R, S>& sc, unsigned seed) {
	Trace t = trace_addr(static_cast<const Pire::Impl::Scanner<R, S>&>(sc)); Rng r(seed); typename Pire::Impl::HalfFinalScanner<R, S>::State s;
	for (int w = 0; w < 4; ++w) { sc.Initialize(s); for (int i = 0; i < 12; ++i) { t.push_back(sc.StateIndex(s)); t.push_back(sc.Final(s)); t.push_back(sc.Dead(s)); for (size_t k = 0; k < sc.RegexpsCount(); ++k) t.push_back(s.Result(k)); Pire::Step(sc, s, (Char)"abcdex1;"[r.below(8)]); } }
	return t;
}
inline Trace trace(const Slow& sc, unsigned) {
	Trace t; t.push_back(sc.Size()); t.push_back(sc.Empty()); t.push_back(sc.RegexpsCount()); std::map<std::vector<unsigned>, size_t> num; std::vector<Slow::State> st(1); sc.Initialize(st[0]); num[st[0].states] = 0;
	for (size_t i = 0; i < st.size(); ++i) { t.push_back(sc.Final(st[i])); accepted(t, sc.AcceptedRegexps(st[i])); for (unsigned x : st[i].states) t.push_back(x);
		for (unsigned c = 0; c < MaxChar; ++c) if (c != Epsilon && (i < 3 || c > 250 || c % 7 == i % 7 || (c >= 'a' && c <= 'e'))) { Slow::State n(sc.m.statesCount); sc.Next(st[i], n, c); auto f = num.find(n.states); if (f == num.end() && st.size() < 10) { f = num.insert(std::make_pair(n.states, st.size())).first; st.push_back(n); } t.push_back(f == num.end() ? 100000 + n.states.size() : f->second); } }
	return t;
}
inline void results(Trace& t, const Cap::State& s, size_t) { t.push_back(s.Begin()); t.push_back(s.End()); t.push_back(s.Captured()); }
template<class St> void results(Trace& t, const St& s, size_t n) { for (size_t k = 0; k < n; ++k) t.push_back(s.Result(k)); }
template<class Sc> Trace trace_loaded(const Sc& sc, unsigned seed) {
	Trace t; t.push_back(sc.Size()); t.push_back(sc.Empty()); t.push_back(sc.RegexpsCount()); t.push_back(sc.LettersCount()); typedef typename Sc::State St; St s; sc.Initialize(s); std::map<size_t, size_t> num; std::vector<size_t> st(1, s.m_state); num[s.m_state] = 0;
	for (size_t i = 0; i < st.size(); ++i) { s.m_state = st[i]; t.push_back(sc.StateIndex(s)); t.push_back(sc.Final(s)); t.push_back(sc.Dead(s));
		for (unsigned c = 0; c < MaxChar; ++c) if (c != Epsilon) { s.m_state = st[i]; t.push_back(sc.Next(s, c)); size_t x = s.m_state; auto f = num.find(x); if (f == num.end() && st.size() < kStates) { f = num.insert(std::make_pair(x, st.size())).first; st.push_back(x); } t.push_back(f == num.end() ? sc.StateIndex(s) + 100000 : f->second); } }
	Rng r(seed); for (int w = 0; w < 4; ++w) { sc.Initialize(s); for (int i = 0; i < 16; ++i) { results(t, s, sc.RegexpsCount()); Pire::Step(sc, s, (Char)"aabcdx ,;1x "[r.below(12)]); } }
	return t;
}
inline Trace trace(const Cnt& sc, unsigned seed) { return trace_loaded(sc, seed); }
inline Trace trace(const Adv& sc, unsigned seed) { return trace_loaded(sc, seed); }
inline Trace trace(const Ngl& sc, unsigned seed) { return trace_loaded(sc, seed); }
inline Trace trace(const Cap& sc, unsigned seed) { return trace_loaded(sc, seed); }
inline Trace trace(const SlowCap& sc, unsigned seed) {
	Trace t; t.push_back(sc.Size()); t.push_back(sc.Empty()); if (sc.Empty()) return t; Rng r(seed);
	for (int w = 0; w < 6; ++w) { SlowCap::State s; sc.Initialize(s); Pire::Step(sc, s, BeginMark); for (int i = 0; i < 10; ++i) Pire::Step(sc, s, (Char)"abcdex1;"[r.below(8)]); Pire::Step(sc, s, EndMark); SlowCap::SingleState g; bool m = sc.GetCapture(s, g); t.push_back(m); if (m) { t.push_back(g.GetBegin()); t.push_back(g.GetEnd()); } }
	return t;
}
inline std::string differ(const Trace& a, const Trace& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return "behaviour differs at observation " + str(i) + " of " + str(a.size()) + "/" + str(b.size()); }
#define SAME(a, b, what) do { Trace x_ = (a); const Trace& y_ = (b); CHECK(x_ == y_, what << ": " << differ(x_, y_)); } while (0)

inline Fsm some_fsm(Rng& r, std::string& d) {
	if (r.chance(1, 2)) { std::string p = random_pattern(r); d += " /" + p + "/"; Fsm f = lex(p); if (r.chance(1, 3)) f.Surround(); return f; }
	Nfa a; if (r.chance(1, 2)) a = random_dfa(r, 6, 3); else { GenOpt o; o.maxStates = 4; a = random_nfa(r, o); } d += " " + a.dump(); return to_fsm(a);
}
template<class R, class S> Pire::Impl::Scanner<R, S> make(Rng& r, std::string& d, const Pire::Impl::Scanner<R, S>*) {
	typedef Pire::Impl::Scanner<R, S> Sc; Fsm f = some_fsm(r, d); Sc a(f); if (!r.chance(1, 3)) return a; Fsm g = some_fsm(r, d); Sc b(g); Sc x = Sc::Glue(a, b, 2000); if (r.chance(1, 3)) { Fsm h = some_fsm(r, d); return Sc::Glue(x, Sc(h), 2000); } return x;
}
template<class R, class S> Pire::Impl::HalfFinalScanner<R, S> make(Rng& r, std::string& d, const Pire::Impl::HalfFinalScanner<R, S>*) {
	typedef Pire::Impl::HalfFinalScanner<R, S> Sc; Fsm f = some_fsm(r, d); Sc a(f); if (!r.chance(1, 3)) return a; Fsm g = some_fsm(r, d); return Sc::Glue(a, Sc(g), 2000);
}
inline Simple make(Rng& r, std::string& d, const Simple*) { Fsm f = some_fsm(r, d); return Simple(f); }
inline Slow make(Rng& r, std::string& d, const Slow*) { Fsm f = some_fsm(r, d); return Slow(f); }
static const char* const kRe[] = { "[a-z]+", "ab", "a", "a+b", "[ab]+", "(ab|c)", "\\d+", "x" }; static const char* const kSep[] = { "\\s", ".*", "\\s*", "[,;]", "." };
template<class Sc> const Sc& counter(int p, int q) { static std::map<std::pair<int, int>, Sc> m; auto k = std::make_pair(p, q); auto i = m.find(k); if (i == m.end()) i = m.insert(std::make_pair(k, Sc(lex(kRe[p]), lex(kSep[q])))).first; return i->second; }
template<class Sc> Sc make_counter(Rng& r, std::string& d) { int p = r.below(8), q = r.below(5), n = r.chance(1, 2) ? 0 : r.range(1, 2); d += std::string(" /") + kRe[p] + "/ by /" + kSep[q] + "/"; Sc s(counter<Sc>(p, q)); while (n--) { p = r.below(8); q = r.below(2); d += std::string(" /") + kRe[p] + "/ by /" + kSep[q] + "/"; s = Sc::Glue(s, counter<Sc>(p, q), 5000); } return s; }
inline Cnt make(Rng& r, std::string& d, const Cnt*) { return make_counter<Cnt>(r, d); }
inline Adv make(Rng& r, std::string& d, const Adv*) { return make_counter<Adv>(r, d); }
inline Ngl make(Rng& r, std::string& d, const Ngl*) { return make_counter<Ngl>(r, d); }
static const char* const kCap[] = { "a(b+)c", "x(\\d+);", "(a|b)c", "(ab)*(c)", "[xy](d?)e" };
inline Fsm cap_fsm(Rng& r, std::string& d) { std::string p = kCap[r.below(5)]; d += " capture /" + p + "/"; Pire::Lexer lx(p.data(), p.data() + p.size()); lx.AddFeature(Pire::Features::Capture(1)); Fsm f = lx.Parse(); f.Surround(); return f; }
inline Cap make(Rng& r, std::string& d, const Cap*) {
	if (r.chance(1, 2)) { Fsm f = cap_fsm(r, d); f.Determine(); return Cap(f); }
	Nfa a = random_dfa(r, 6, 3); d += " " + a.dump(); Fsm f = to_fsm(a); f.Determine(); Cap sc; sc.Init(f.Size(), f.Letters(), f.Initial());
	for (size_t s = 0; s < f.Size(); ++s) { for (auto& l : f.Letters()) sc.SetJump(s, l.first, *f.Destinations(s, l.first).begin(), r.below(4)); sc.SetTag(s, f.IsFinal(s)); } return sc;
}
inline SlowCap make(Rng& r, std::string& d, const SlowCap*) { Fsm f = cap_fsm(r, d); return SlowCap(f); }
// memory that belongs to the user: mapped scanners stay valid as long as it lives
struct Image { std::vector<size_t> buf; size_t size; explicit Image(const std::string& s): buf(s.size() / sizeof(size_t) + 1), size(s.size()) { memcpy(buf.data(), s.data(), s.size()); } const void* p() const { return buf.data(); } };
template<class Sc> std::string saved(const Sc& sc) { std::ostringstream o; sc.Save(&o); return o.str(); }
// the stored form of these keeps no note of being empty
template<class Sc> struct IsLoaded { static const bool value = std::is_base_of<Pire::LoadedScanner, Sc>::value; };
// which scanners can be mapped
template<class Sc> struct CanMap { static const bool value = true; };
template<class S> struct CanMap<Pire::Impl::Scanner<Pire::Impl::Nonrelocatable, S> > { static const bool value = false; };
template<class S> struct CanMap<Pire::Impl::HalfFinalScanner<Pire::Impl::Nonrelocatable, S> > { static const bool value = false; };
template<class Sc, bool V = CanMap<Sc>::value> struct Mapper { static const void* map(Sc& s, const void* p, size_t n) { return s.Mmap(p, n); } };
template<class Sc> struct Mapper<Sc, false> { static const void* map(Sc&, const void*, size_t) { return 0; } };
}
