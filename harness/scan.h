// Helpers over scanners: state comparison, stepwise reference runs.
#pragma once
#include "gen.h"
namespace vh {
inline bool eq(size_t a, size_t b) { return a == b; }
inline bool eq(const Pire::SlowScanner::State& a, const Pire::SlowScanner::State& b) {
	std::set<unsigned> x(a.states.begin(), a.states.end()), y(b.states.begin(), b.states.end());
	return x == y && a.states.size() == b.states.size();
}
template<class R, class S> bool eq_hf(const typename Pire::Impl::HalfFinalScanner<R, S>::State& a, const typename Pire::Impl::HalfFinalScanner<R, S>::State& b) { return a == b; }
inline bool eq(const Pire::HalfFinalScanner::State& a, const Pire::HalfFinalScanner::State& b) { return a == b; }
inline bool eq(const Pire::HalfFinalScannerNoMask::State& a, const Pire::HalfFinalScannerNoMask::State& b) { return a == b; }
inline bool eq(const Pire::NonrelocHalfFinalScanner::State& a, const Pire::NonrelocHalfFinalScanner::State& b) { return a == b; }
inline bool eq(const Pire::NonrelocHalfFinalScannerNoMask::State& a, const Pire::NonrelocHalfFinalScannerNoMask::State& b) { return a == b; }
template<size_t N> bool eq(const Pire::CountingState<N>& a, const Pire::CountingState<N>& b) {
	if (a.m_state != b.m_state) return false;
	for (size_t i = 0; i < N; ++i) if (a.m_current[i] != b.m_current[i] || a.m_total[i] != b.m_total[i]) return false;
	return true;
}
inline bool eq(const Pire::NoGlueLimitCountingState& a, const Pire::NoGlueLimitCountingState& b) { return a.m_state == b.m_state && a.m_current == b.m_current && a.m_total == b.m_total; }
inline bool eq(const Pire::CapturingScanner::State& a, const Pire::CapturingScanner::State& b) { return a.m_state == b.m_state && a.m_begin == b.m_begin && a.m_end == b.m_end && a.m_counter == b.m_counter; }
inline bool eq(const Pire::SlowCapturingScanner::State& a, const Pire::SlowCapturingScanner::State& b) {
	if (a.GetPos() != b.GetPos() || a.GetSize() != b.GetSize() || a.IsMatched() != b.IsMatched()) return false;
	for (size_t i = 0; i < a.GetSize(); ++i) if (a.GetState(i).GetNum() != b.GetState(i).GetNum() || a.GetState(i).GetBegin() != b.GetState(i).GetBegin() || a.GetState(i).GetEnd() != b.GetState(i).GetEnd()) return false;
	return true;
}
template<class A, class B> bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b) { return eq(a.first, b.first) && eq(a.second, b.second); }

template<class Sc> void steps(const Sc& sc, typename Sc::State& st, const std::string& t) { for (size_t i = 0; i < t.size(); ++i) Pire::Step(sc, st, (unsigned char)t[i]); }

inline size_t random_len(Rng& r) { return r.chance(1, 4) ? r.below(9) : r.chance(1, 2) ? r.below(40) : r.below(200); }
inline Pire::Fsm lex(const std::string& p) { return Pire::Lexer(p.data(), p.data() + p.size()).Parse(); }
static const char* const kPatterns[] = { "abc", "a*b", ".*abc.*", "a[^b]*", "(ab|cd)+e?", "x{3}y", "[a-z]+", "a.{3}b", "", "a|b|c", "(a|b)*abb", ".*", "[^a]*", "a+b+c+", "\\d+", "\\xff+", "a(b|c)*d" };
inline std::string random_pattern(Rng& r) { return kPatterns[r.below(sizeof kPatterns / sizeof *kPatterns)]; }
}
