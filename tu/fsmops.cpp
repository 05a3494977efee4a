// The automaton operations (contracts)
#include "fsm.cpp"
#include <stddef.h>
using namespace Pire;
extern "C" {
extern const size_t vc_size_fsm = sizeof(Fsm);
extern const size_t vc_epsilon = Epsilon;
extern const size_t vc_max_char = MaxChar;
extern const size_t vc_off_initial = offsetof(Fsm, initial);
extern const size_t vc_off_sparsed = offsetof(Fsm, m_sparsed);
extern const size_t vc_off_determined = offsetof(Fsm, determined);
extern const size_t vc_off_alt = offsetof(Fsm, isAlternative);
extern const size_t vc_off_trans = offsetof(Fsm, m_transitions);
extern const size_t vc_off_final = offsetof(Fsm, m_final);
extern const size_t vc_off_letters = offsetof(Fsm, letters);
extern const size_t vc_off_outputs = offsetof(Fsm, outputs);
extern const size_t vc_off_tags = offsetof(Fsm, tags);
void vc_append(Fsm& f, char c) { f.Append(c); }
void vc_special(Fsm& f, Char c) { f.AppendSpecial(c); }
void vc_dot(Fsm& f) { f.AppendDot(); }
void vc_iterate(Fsm& f) { f.Iterate(); }
void vc_plus(Fsm& f, const Fsm& g) { f += g; }
void vc_or(Fsm& f, const Fsm& g) { f |= g; }
void vc_and(Fsm& f, const Fsm& g) { f &= g; }
void vc_complement(Fsm& f) { f.Complement(); }
void vc_times(Fsm* r, const Fsm& f, size_t n) { new (r) Fsm(f * n); }
void vc_times_eq(Fsm& f, size_t n) { f *= n; }
void vc_plus2(Fsm* r, const Fsm& f, const Fsm& g) { new (r) Fsm(f + g); }
void vc_or2(Fsm* r, const Fsm& f, const Fsm& g) { new (r) Fsm(f | g); }
void vc_and2(Fsm* r, const Fsm& f, const Fsm& g) { new (r) Fsm(f & g); }
void vc_star(Fsm* r, const Fsm& f) { new (r) Fsm(*f); }
void vc_not(Fsm* r, const Fsm& f) { new (r) Fsm(~f); }
void vc_surround(Fsm& f) { f.Surround(); }
void vc_surrounded(Fsm* r, const Fsm& f) { new (r) Fsm(f.Surrounded()); }
void vc_prefix(Fsm& f) { f.MakePrefix(); }
void vc_suffix(Fsm& f) { f.MakeSuffix(); }
void vc_prepend(Fsm& f) { f.PrependAnything(); }
void vc_appendany(Fsm& f) { f.AppendAnything(); }
void vc_connect(Fsm& f, size_t a, size_t b, Char c) { f.Connect(a, b, c); }
void vc_disconnect(Fsm& f, size_t a, size_t b, Char c) { f.Disconnect(a, b, c); }
bool vc_connected(const Fsm& f, size_t a, size_t b, Char c) { return f.Connected(a, b, c); }
const Fsm::StatesSet& vc_dest(const Fsm& f, size_t a, Char c) { return f.Destinations(a, c); }
void vc_setfinal(Fsm& f, size_t a, bool v) { f.SetFinal(a, v); }
bool vc_isfinal(const Fsm& f, size_t a) { return f.IsFinal(a); }
size_t vc_resize(Fsm& f, size_t n) { return f.Resize(n); }
void vc_makefalse(Fsm* r) { new (r) Fsm(Fsm::MakeFalse()); }
void vc_connectfinal(Fsm& f, size_t t, Char c) { f.ConnectFinal(t, c); }
size_t vc_size(const Fsm& f) { return f.Size(); }
bool vc_determine(Fsm& f, size_t n) { return f.Determine(n); }
void vc_minimize(Fsm& f) { f.Minimize(); }
unsigned long vc_output(const Fsm& f, size_t a, size_t b) { return f.Output(a, b); }
void vc_canonize(Fsm& f, size_t n) { f.Canonize(n); }
void vc_reverse(Fsm& f) { f.Reverse(); }
void vc_rmeps(Fsm& f) { f.RemoveEpsilons(); }
void vc_rmdead(Fsm& f) { f.RemoveDeadEnds(); }
void vc_sparse(Fsm& f, bool e) { f.Sparse(e); }
void vc_unsparse(Fsm& f) { f.Unsparse(); }
bool vc_leq(const Fsm::LettersEquality& q, Char a, Char b) { return q(a, b); }
}
