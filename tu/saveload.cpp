// Storing, loading and mapping of scanners, with the helpers they are made of
#include <stddef.h>
#include <pire/pire.h>
#include <pire/extra.h>
#include <pire/scanner_io.cpp>
using namespace Pire;
#ifndef SC
#define SC Pire::Scanner
#endif
typedef SC S;
typedef SimpleScanner M;
typedef LoadedScanner L;
typedef SlowScanner W;
template<class R, class T> T Kind(Impl::Scanner<R, T>*);
extern "C" {
void vc_validate(const Header& h, ui32 type, size_t size) { h.Validate(type, size); }
void vc_header(Header* h, ui32 type, size_t size) { new (h) Header(type, size); }
const void* vc_advance(const size_t*& p, size_t& size, size_t n) { return Impl::AdvancePtr(p, size, n); }
const void* vc_align(const size_t*& p, size_t& size) { return Impl::AlignPtr(p, size); }
void vc_checkalign(const void* p) { Impl::CheckAlign(p); }
void vc_mapptr8(size_t*& f, size_t n, const size_t*& p, size_t& size) { Impl::MapPtr(f, n, p, size); }
void vc_mapptr1(char*& f, size_t n, const size_t*& p, size_t& size) { Impl::MapPtr(f, n, p, size); }
size_t vc_alignup(size_t n) { return Impl::AlignUp(n, sizeof(size_t)); }
void vc_alignedsave8(yostream* s, const size_t* a, size_t n) { Impl::AlignedSaveArray(s, a, n); }
void vc_alignedsave1(yostream* s, const char* a, size_t n) { Impl::AlignedSaveArray(s, a, n); }
void vc_alignedload8(yistream* s, size_t* a, size_t n) { Impl::AlignedLoadArray(s, a, n); }
void vc_alignedload1(yistream* s, char* a, size_t n) { Impl::AlignedLoadArray(s, a, n); }
const void* vc_mmap(S& s, const void* p, size_t n) { return s.Mmap(p, n); }
void vc_save(const S& s, yostream* o) { s.Save(o); }
void vc_load(S& s, yistream* i) { s.Load(i); }
void vc_markup(S& s, void* p) { s.Markup(p); }
size_t vc_bufsize(const S& s) { return s.BufSize(); }
const void* vm_mmap(M& s, const void* p, size_t n) { return s.Mmap(p, n); }
void vm_save(const M& s, yostream* o) { s.Save(o); }
void vm_load(M& s, yistream* i) { s.Load(i); }
void vm_markup(M& s, void* p) { s.Markup(p); }
size_t vm_bufsize(const M& s) { return s.BufSize(); }
const void* vl_mmap(L& s, const void* p, size_t n) { return s.Mmap(p, n); }
const void* vl_mmapt(L& s, const void* p, size_t n, ui32* t) { return s.Mmap(p, n, t); }
void vl_save(const L& s, yostream* o, ui32 type) { s.Save(o, type); }
void vl_load(L& s, yistream* i, ui32* t) { s.Load(i, t); }
void vl_markup(L& s, void* p) { s.Markup(p); }
size_t vl_bufsize(const L& s) { return s.BufSize(); }
const void* vw_mmap(W& s, const void* p, size_t n) { return s.Mmap(p, n); }

extern const unsigned long vc_ssig = decltype(Kind((S*) 0))::Signature;
extern const unsigned long vc_sig = Impl::Relocatable::Signature;
#define FIELD(k, T, n, f) extern const unsigned long vc_##k##_##n = offsetof(T, f);
FIELD(sc, S, m, m) FIELD(sc, S, states, m.statesCount) FIELD(sc, S, letters, m.lettersCount) FIELD(sc, S, regexps, m.regexpsCount) FIELD(sc, S, initial, m.initial) FIELD(sc, S, ftsize, m.finalTableSize) FIELD(sc, S, rsig, m.relocationSignature) FIELD(sc, S, ssig, m.shortcuttingSignature)
FIELD(sc, S, buffer, m_buffer) FIELD(sc, S, ltab, m_letters) FIELD(sc, S, final, m_final) FIELD(sc, S, findex, m_finalIndex) FIELD(sc, S, trans, m_transitions)
FIELD(sm, M, m, m) FIELD(sm, M, states, m.statesCount) FIELD(sm, M, initial, m.initial) FIELD(sm, M, buffer, m_buffer) FIELD(sm, M, trans, m_transitions)
FIELD(lo, L, m, m) FIELD(lo, L, statesCount, m.statesCount) FIELD(lo, L, lettersCount, m.lettersCount) FIELD(lo, L, regexpsCount, m.regexpsCount) FIELD(lo, L, initial, m.initial) FIELD(lo, L, buffer, m_buffer) FIELD(lo, L, letters, m_letters) FIELD(lo, L, jumps, m_jumps) FIELD(lo, L, tags, m_tags)
FIELD(sl, W, m, m) FIELD(sl, W, states, m.statesCount) FIELD(sl, W, letters, m.lettersCount) FIELD(sl, W, start, m.start) FIELD(sl, W, finals, m_finals) FIELD(sl, W, jumps, m_jumps) FIELD(sl, W, actions, m_actions) FIELD(sl, W, jumpPos, m_jumpPos) FIELD(sl, W, ltab, m_letters) FIELD(sl, W, vecptr, m_vecptr) FIELD(sl, W, need, need_actions)
extern const unsigned long vc_M_sc = sizeof(S::Locals), vc_M_sm = sizeof(M::Locals), vc_M_lo = sizeof(L::Locals), vc_M_sl = sizeof(W::Locals);
extern const unsigned long vc_size_sc = sizeof(S), vc_size_sm = sizeof(M), vc_size_lo = sizeof(L), vc_size_sl = sizeof(W), vc_size_header = sizeof(Header);
extern const unsigned long vc_type_sc = ScannerIOTypes::Scanner, vc_type_sm = ScannerIOTypes::SimpleScanner, vc_type_lo = ScannerIOTypes::LoadedScanner, vc_type_sl = ScannerIOTypes::SlowScanner, vc_type_ngl = ScannerIOTypes::NoGlueLimitCountingScanner, vc_type_none = ScannerIOTypes::NoScanner;
extern const unsigned long vc_size_tag = sizeof(L::Tag);
extern const unsigned long vc_max_char = MaxChar;
}
