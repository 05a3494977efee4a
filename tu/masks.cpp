// Scanner<>::RunAligned and the shortcut machinery, without inlining: the callees keep their contracts.
#include <pire/pire.h>
#include <pire/run.h>
using namespace Pire;
using namespace Pire::Impl;
#ifndef VC_RELOC
#define VC_RELOC Relocatable
#endif
#ifndef VC_SHORT
#define VC_SHORT ExitMasks<2>
#endif
typedef Pire::Impl::Scanner<VC_RELOC, VC_SHORT> S;
extern "C" {
Impl::Action vc_aligned_run(const S& s, S::State& st, const size_t* b, const size_t* e) { return AlignedRunner<S>::RunAligned(s, st, b, e, RunPred<S>()); }
Impl::Action vc_aligned_longest(const S& s, S::State& st, const size_t* b, const size_t* e, const char*& pos) { return AlignedRunner<S>::RunAligned(s, st, b, e, LongestPrefixPred<S>(pos)); }
Impl::Action vc_aligned_shortest(const S& s, S::State& st, const size_t* b, const size_t* e, const char*& pos) { return AlignedRunner<S>::RunAligned(s, st, b, e, ShortestPrefixPred<S>(pos)); }
}
#include <cstddef>
extern "C" void vc_run(const S& s, S::State& st, const char* b, const char* e) { Pire::Run(s, st, b, e); }
extern "C" void vc_layout(const S& s, size_t& t) { t = (size_t)s.m_transitions; }
#include <new>
typedef S::ScannerRowHeader Hdr;
typedef Pire::Impl::Scanner<Nonrelocatable, VC_SHORT>::ScannerRowHeader HdrN;
extern "C" {
extern const unsigned long vc_off_transitions = offsetof(S, m_transitions);
extern const unsigned long vc_hdr_size = sizeof(Hdr);
extern const unsigned long vc_sizeof_word = sizeof(Word);
const Word* vc_mask_run(const S& s, size_t st, size_t off, const Word* b, const Word* e) { return VC_SHORT::Run(s, st, off, b, e); }
bool vc_noexit(const S& s, size_t st) { return VC_SHORT::NoExit(s, st); }
bool vc_noshortcut(const S& s, size_t st) { return VC_SHORT::NoShortcut(s, st); }
bool vc_checkbytes(const char* m, const char* c) { return IsAnySet(CheckBytes(*(const Word*)m, *(const Word*)c)); }
bool vc_checkbytes2(const char* m, const char* m2, const char* c) { return IsAnySet(Or(CheckBytes(*(const Word*)m, *(const Word*)c), CheckBytes(*(const Word*)m2, *(const Word*)c))); }
size_t vc_fill(char c) { return FillSizeT(c); }
size_t vc_flags(const Hdr& h) { return h.Common.Flags; }
void vc_hdr_ctor(Hdr* h) { new (h) Hdr(); }
void vc_hdr_assign(Hdr& a, const Hdr& b) { a = b; }
void vc_hdr_assign_n(Hdr& a, const HdrN& b) { a = b; }
void vc_set_noexit(Hdr& h) { VC_SHORT::SetNoExit(h); }
void vc_set_noshortcut(Hdr& h) { VC_SHORT::SetNoShortcut(h); }
void vc_setmask(Hdr& h, size_t i, char c) { VC_SHORT::SetMask(h, i, c); }
void vc_finish(Hdr& h, size_t ind) { VC_SHORT::FinishMasks(h, ind); }
#ifdef VC_MASKS
size_t vc_mask(const Hdr& h, size_t i) { return h.Mask(i); }
const Word* vc_mask_at(const Hdr& h, size_t i, size_t off) { return &h.Mask(i, off); }
void vc_setmask_raw(Hdr& h, size_t i, size_t v) { h.SetMask(i, v); }
#endif
}
