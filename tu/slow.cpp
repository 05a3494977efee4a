// The real SlowScanner and BitSet
#include <stddef.h>
#include <pire/pire.h>
using namespace Pire;
typedef SlowScanner S;
extern "C" {
void vc_init(const S& s, S::State& st) { s.Initialize(st); }
S::Action vc_nextt(const S& s, const S::State& a, S::State& b, Char l) { return s.NextTranslated(a, b, l); }
S::Action vc_next(const S& s, const S::State& a, S::State& b, Char c) { return s.Next(a, b, c); }
S::Action vc_nextt2(const S& s, S::State& a, Char l) { return s.NextTranslated(a, l); }
S::Action vc_next2(const S& s, S::State& a, Char c) { return s.Next(a, c); }
bool vc_take(const S& s, S::State& a, S::Action c) { return s.TakeAction(a, c); }
Char vc_translate(const S& s, Char c) { return s.Translate(c); }
bool vc_final(const S& s, const S::State& a) { return s.Final(a); }
bool vc_canstop(const S& s, const S::State& a) { return s.CanStop(a); }
bool vc_dead(const S& s, const S::State& a) { return s.Dead(a); }
ypair<const size_t*, const size_t*> vc_accepted(const S& s, const S::State& a) { return s.AcceptedRegexps(a); }
void vc_run(const S& s, S::State& a, const char* b, const char* e) { Run(s, a, b, e); }
void vc_setjump(S& s, size_t from, Char c, size_t to, unsigned long act) { s.SetJump(from, c, to, act); }
void vc_settag(S& s, size_t st, ui8 tag) { s.SetTag(st, tag); }
void vc_setinitial(S& s, size_t st) { s.SetInitial(st); }
void vc_state_ctor(S::State* p, size_t n) { new (p) S::State(n); }
void vc_state_swap(S::State& a, S::State& b) { a.Swap(b); }
void vc_bs_new(BitSet* p, size_t n) { new (p) BitSet(n); }
void vc_bs_new0(BitSet* p) { new (p) BitSet(); }
void vc_bs_set(BitSet& b, size_t i) { b.Set(i); }
void vc_bs_reset(BitSet& b, size_t i) { b.Reset(i); }
bool vc_bs_test(const BitSet& b, size_t i) { return b.Test(i); }
size_t vc_bs_size(const BitSet& b) { return b.Size(); }
void vc_bs_resize(BitSet& b, size_t n) { b.Resize(n); }
void vc_bs_clear(BitSet& b) { b.Clear(); }
void vc_bs_swap(BitSet& a, BitSet& b) { a.Swap(b); }

extern const unsigned long vc_off_states = offsetof(S, m.statesCount);
extern const unsigned long vc_off_letters = offsetof(S, m.lettersCount);
extern const unsigned long vc_off_start = offsetof(S, m.start);
extern const unsigned long vc_off_finals = offsetof(S, m_finals);
extern const unsigned long vc_off_jumps = offsetof(S, m_jumps);
extern const unsigned long vc_off_actions = offsetof(S, m_actions);
extern const unsigned long vc_off_jumpPos = offsetof(S, m_jumpPos);
extern const unsigned long vc_off_ltab = offsetof(S, m_letters);
extern const unsigned long vc_off_vec = offsetof(S, m_vec);
extern const unsigned long vc_off_vecptr = offsetof(S, m_vecptr);
extern const unsigned long vc_off_need = offsetof(S, need_actions);
extern const unsigned long vc_off_avec = offsetof(S, m_actionsvec);
extern const unsigned long vc_size_slow = sizeof(S);
extern const unsigned long vc_off_st_states = offsetof(S::State, states);
extern const unsigned long vc_off_st_flags = offsetof(S::State, flags);
extern const unsigned long vc_size_st = sizeof(S::State);
extern const unsigned long vc_off_bs_data = offsetof(BitSet, m_data);
extern const unsigned long vc_off_bs_size = offsetof(BitSet, m_size);
extern const unsigned long vc_size_bs = sizeof(BitSet);
extern const unsigned long vc_max_char = MaxChar;
}
