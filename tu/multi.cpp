// The real Scanner (one of its four variants, SC; OT is the one with the other relocation) and the half-final scanner over it (HF)
#include <stddef.h>
#include <pire/pire.h>
using namespace Pire;
#ifndef SC
#define SC Pire::Scanner
#define OT Pire::NonrelocScanner
#define HF Pire::HalfFinalScanner
#define RELOC 1
#endif
typedef SC S;
typedef OT O;
typedef HF H;
extern "C" {
bool vc_final(const S& s, const S::State& a) { return s.Final(a); }
bool vc_dead(const S& s, const S::State& a) { return s.Dead(a); }
ypair<const size_t*, const size_t*> vc_accepted(const S& s, const S::State& a) { return s.AcceptedRegexps(a); }
size_t vc_acccount(const S& s, size_t i) { return s.AcceptedRegexpsCount(i); }
void vc_init(const S& s, S::State& a) { s.Initialize(a); }
Char vc_translate(const S& s, Char c) { return s.Translate(c); }
S::Action vc_nextt(const S& s, S::State& a, Char l) { return s.NextTranslated(a, l); }
S::Action vc_next(const S& s, S::State& a, Char c) { return s.Next(a, c); }
void vc_take(const S& s, S::State& a, S::Action x) { s.TakeAction(a, x); }
size_t vc_stateindex(const S& s, S::State a) { return s.StateIndex(a); }
size_t vc_index2state(const S& s, size_t i) { return s.IndexToState(i); }
size_t vc_bufsize(const S& s) { return s.BufSize(); }
size_t vc_rowsize(const S& s) { return s.RowSize(); }
size_t vc_size(const S& s) { return s.Size(); }
size_t vc_letters(const S& s) { return s.LettersCount(); }
size_t vc_regexps(const S& s) { return s.RegexpsCount(); }
bool vc_empty(const S& s) { return s.Empty(); }
void vc_setjump(S& s, size_t from, Char c, size_t to) { s.SetJump(from, c, to); }
void vc_setinitial(S& s, size_t i) { s.SetInitial(i); }
void vc_settag(S& s, size_t i, size_t v) { s.SetTag(i, v); }
void vc_finish(S& s) { s.FinishBuild(); }
void vc_shortcuts(S& s) { s.BuildShortcuts(); }
void vc_markup(S& s, void* p) { s.Markup(p); }
void vc_alias(S& s, const S& o) { s.Alias(o); }
void vc_swap(S& s, S& o) { s.Swap(o); }
void vc_copy(S* s, const S& o) { new (s) S(o); }
void vc_move(S* s, S& o) { new (s) S(std::move(o)); }
void vc_convert(S* s, const O& o) { new (s) S(o); }
void vc_deepcopy(S& s, const S& o) { s.DeepCopy(o); }
void vc_deepconv(S& s, const O& o) { s.DeepCopy(o); }
void vc_assign(S& s, const S& o) { s = o; }
void vc_default(S* s) { new (s) S(); }
void vc_build(const Fsm& f, S& s) { BuildScanner(f, s); }
const size_t* vc_alignptr(const size_t*& p, size_t& size) { return (const size_t*) Impl::AlignPtr(p, size); }
#ifdef RELOC
const void* vc_mmap(S& s, const void* p, size_t n) { return s.Mmap(p, n); }
#endif

void vc_hf_init(const H& s, H::State& a) { s.Initialize(a); }
H::Action vc_hf_next(const H& s, H::State& a, Char c) { return s.Next(a, c); }
H::Action vc_hf_nextt(const H& s, H::State& a, Char l) { return s.NextTranslated(a, l); }
void vc_hf_take(const H& s, H::State& a, H::Action x) { s.TakeAction(a, x); }
bool vc_hf_final(const H& s, const H::State& a) { return s.Final(a); }
bool vc_hf_dead(const H& s, const H::State& a) { return s.Dead(a); }
size_t vc_hf_stateindex(const H& s, const H::State& a) { return s.StateIndex(a); }
size_t vc_hf_result(const H::State& a, size_t i) { return a.Result(i); }
void vc_hf_ids(H::State& a) { a.GetMatchedRegexpsIds(); }
void vc_hf_accepted(const H& s, H::State& a, H::AcceptedRegexpsType* r) { *r = s.AcceptedRegexps(a); }
bool vc_hf_eq(const H::State& a, const H::State& b) { return a == b; }
void vc_hf_finals(H& s, const HalfFinalFsm& f) { s.BuildFinals(f); }
void vc_hf_new(H* s, const HalfFinalFsm& f) { new (s) H(f); }
size_t vc_hf_count(const HalfFinalFsm& f, size_t s) { return f.GetCount(s); }
size_t vc_hf_total(const HalfFinalFsm& f) { return f.GetTotalCount(); }

extern const unsigned long vc_off_states = offsetof(S, m.statesCount);
extern const unsigned long vc_off_letters = offsetof(S, m.lettersCount);
extern const unsigned long vc_off_regexps = offsetof(S, m.regexpsCount);
extern const unsigned long vc_off_initial = offsetof(S, m.initial);
extern const unsigned long vc_off_ftsize = offsetof(S, m.finalTableSize);
extern const unsigned long vc_off_rsig = offsetof(S, m.relocationSignature);
extern const unsigned long vc_off_ssig = offsetof(S, m.shortcuttingSignature);
extern const unsigned long vc_off_buffer = offsetof(S, m_buffer);
extern const unsigned long vc_off_ltab = offsetof(S, m_letters);
extern const unsigned long vc_off_final = offsetof(S, m_final);
extern const unsigned long vc_off_findex = offsetof(S, m_finalIndex);
extern const unsigned long vc_off_trans = offsetof(S, m_transitions);
extern const unsigned long vc_size_sc = sizeof(S);
extern const unsigned long vc_size_hf = sizeof(H);
extern const unsigned long vc_size_trans = sizeof(S::Transition);
extern const unsigned long vc_header = S::HEADER_SIZE;
extern const unsigned long vc_header_bytes = sizeof(S::ScannerRowHeader);
extern const unsigned long vc_off_flags = offsetof(S::ScannerRowHeader, Common.Flags);
extern const unsigned long vc_max_char = MaxChar;
extern const unsigned long vc_off_hfst_ids = offsetof(H::State, MatchedRegexpsIds);
extern const unsigned long vc_off_hfst_state = offsetof(H::State, ScannerState);
extern const unsigned long vc_off_hfst_counts = offsetof(H::State, MatchedRegexps);
extern const unsigned long vc_size_hfst = sizeof(H::State);
}
