// The tables of the simple scanner and of the loaded-scanner base
#include <stddef.h>
#include <pire/pire.h>
#include <pire/extra.h>
using namespace Pire;
typedef SimpleScanner S;
typedef LoadedScanner L;
extern "C" {
bool vc_final(const S& s, const S::State& a) { return s.Final(a); }
bool vc_dead(const S& s, const S::State& a) { return s.Dead(a); }
void vc_init(const S& s, S::State& a) { s.Initialize(a); }
S::Action vc_next(const S& s, S::State& a, Char c) { return s.Next(a, c); }
bool vc_take(const S& s, S::State& a, S::Action x) { return s.TakeAction(a, x); }
size_t vc_stateindex(const S& s, S::State a) { return s.StateIndex(a); }
size_t vc_bufsize(const S& s) { return s.BufSize(); }
void vc_setjump(S& s, size_t from, Char c, size_t to) { s.SetJump(from, c, to); }
void vc_setinitial(S& s, size_t i) { s.SetInitial(i); }
void vc_settag(S& s, size_t i, size_t v) { s.SetTag(i, v); }
void vc_markup(S& s, void* p) { s.Markup(p); }
ypair<const size_t*, const size_t*> vc_accepted(const S& s, const S::State& a) { return s.AcceptedRegexps(a); }
void vc_alias(S& s, const S& o) { s.Alias(o); }
void vc_swap(S& s, S& o) { s.Swap(o); }
void vc_copy(S* s, const S& o) { new (s) S(o); }
void vc_assign(S& s, const S& o) { s = o; }
const void* vc_mmap(S& s, const void* p, size_t n) { return s.Mmap(p, n); }

size_t vl_bufsize(const L& s) { return s.BufSize(); }
size_t vl_statesize(const L& s) { return s.StateSize(); }
void vl_setjump(L& s, size_t from, Char c, size_t to, L::Action a) { s.SetJump(from, c, to, a); }
void vl_setinitial(L& s, size_t i) { s.SetInitial(i); }
void vl_settag(L& s, size_t i, L::Tag v) { s.SetTag(i, v); }
void vl_markup(L& s, void* p) { s.Markup(p); }
size_t vl_stateidx(const L& s, L::InternalState a) { return s.StateIdx(a); }
size_t vl_index(const L& s, size_t i, Char c) { return s.TransitionIndex(i, c); }
void vl_alias(L& s, const L& o) { s.Alias(o); }
void vl_swap(L& s, L& o) { s.Swap(o); }
void vl_copy(L* s, const L& o) { new (s) L(o); }
void vl_assign(L& s, const L& o) { s = o; }
void vl_moveassign(L& s, L& o) { s = std::move(o); }
const void* vl_mmap(L& s, const void* p, size_t n, ui32* t) { return s.Mmap(p, n, t); }
void vl_next(const CapturingScanner& s, CapturingScanner::State& st, Char c, L::Action* a) { *a = s.Next(st, c); }

extern const unsigned long vc_sm_states = offsetof(S, m.statesCount);
extern const unsigned long vc_sm_initial = offsetof(S, m.initial);
extern const unsigned long vc_sm_buffer = offsetof(S, m_buffer);
extern const unsigned long vc_sm_trans = offsetof(S, m_transitions);
extern const unsigned long vc_size_sm = sizeof(S);
extern const unsigned long vc_row = S::STATE_ROW_SIZE;
extern const unsigned long vc_off_letters = offsetof(L, m_letters);
extern const unsigned long vc_off_jumps = offsetof(L, m_jumps);
extern const unsigned long vc_off_tags = offsetof(L, m_tags);
extern const unsigned long vc_off_buffer = offsetof(L, m_buffer);
extern const unsigned long vc_off_m = offsetof(L, m);
extern const unsigned long vc_off_statesCount = offsetof(L, m.statesCount);
extern const unsigned long vc_off_lettersCount = offsetof(L, m.lettersCount);
extern const unsigned long vc_off_regexpsCount = offsetof(L, m.regexpsCount);
extern const unsigned long vc_off_initial = offsetof(L, m.initial);
extern const unsigned long vc_size_loaded = sizeof(L);
extern const unsigned long vc_max_char = MaxChar;
extern const unsigned long vc_cap_state = offsetof(CapturingScanner::State, m_state);
extern const unsigned long vc_size_cap_state = sizeof(CapturingScanner::State);
}
