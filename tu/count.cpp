// The glue tasks of the counting scanners, which live in the real count.cpp
#include <stddef.h>
#include <pire/extra/count.cpp>
using namespace Pire;
typedef Impl::CountingScannerGlueTask<CountingScanner> CntTask;
typedef Impl::CountingScannerGlueTask<AdvancedCountingScanner> AdvTask;
typedef Impl::NoGlueLimitCountingScannerGlueTask NglTask;
extern "C" {
void vc_cnt_connect(CntTask& t, size_t a, size_t b, Char c) { t.Connect(a, b, c); }
void vc_adv_connect(AdvTask& t, size_t a, size_t b, Char c) { t.Connect(a, b, c); }
void vc_cnt_accept(CntTask& t, const TVector<CntTask::State>& v) { t.AcceptStates(v); }
void vc_adv_accept(AdvTask& t, const TVector<AdvTask::State>& v) { t.AcceptStates(v); }
CountingScanner vc_cnt_glue(const CountingScanner& a, const CountingScanner& b, size_t n) { return CountingScanner::Glue(a, b, n); }
}
extern "C" {
CountingScanner::Action vc_cnt_action(const CntTask& t, const CountingScanner& s, size_t st, Char c) { return t.Action(s, st, c); }
AdvancedCountingScanner::Action vc_adv_action(const AdvTask& t, const AdvancedCountingScanner& s, size_t st, Char c) { return t.Action(s, st, c); }
CntTask::State vc_cnt_gnext(const CntTask& t, CntTask::State s, Char c) { return t.Next(s, c); }
AdvTask::State vc_adv_gnext(const AdvTask& t, AdvTask::State s, Char c) { return t.Next(s, c); }
NglTask::State vc_ngl_gnext(const NglTask& t, NglTask::State s, Char c) { return t.Next(s, c); }
size_t vc_tr_index(const LoadedScanner& s, size_t st, Char c) { return s.TransitionIndex(st, c); }
}
extern "C" {
extern const unsigned long vc_off_letters = offsetof(LoadedScanner, m_letters);
extern const unsigned long vc_off_jumps = offsetof(LoadedScanner, m_jumps);
extern const unsigned long vc_off_tags = offsetof(LoadedScanner, m_tags);
extern const unsigned long vc_off_buffer = offsetof(LoadedScanner, m_buffer);
extern const unsigned long vc_off_m = offsetof(LoadedScanner, m);
extern const unsigned long vc_off_statesCount = offsetof(LoadedScanner, m.statesCount);
extern const unsigned long vc_off_lettersCount = offsetof(LoadedScanner, m.lettersCount);
extern const unsigned long vc_off_regexpsCount = offsetof(LoadedScanner, m.regexpsCount);
extern const unsigned long vc_off_initial = offsetof(LoadedScanner, m.initial);
extern const unsigned long vc_size_loaded = sizeof(LoadedScanner);
extern const unsigned long vc_max_char = MaxChar;
}
