// Gluing of table scanners (pire/glue.h, pire/scanners/multi.h); SC is one of the four variants
#include <stddef.h>
#include <pire/pire.h>
#include <pire/glue.h>
using namespace Pire;
#ifndef SC
#define SC Pire::Scanner
#endif
typedef SC S;
typedef Impl::ScannerGlueTask<S> Task;
typedef Task::InvStates Inv;
extern "C" {
Task::State vc_gnext(const Task& t, Task::State s, Char c) { return t.Next(s, c); }
Task::State vc_ginitial(const Task& t) { return t.Initial(); }
bool vc_grequired(const Task& t, const Task::State& s) { return t.IsRequired(s); }
bool vc_leq(const Impl::LettersEquality<S>& e, Char a, Char b) { return e(a, b); }
void vc_leqnew(Impl::LettersEquality<S>* e, S::Letter* a, S::Letter* b) { new (e) Impl::LettersEquality<S>(a, b); }
void vc_accept(Task& t, const TVector<Task::State>& s) { t.AcceptStates(s); }
void vc_connect(Task& t, size_t from, size_t to, Char c) { t.Connect(from, to, c); }
void vc_gnew(Task* t, const S& a, const S& b) { new (t) Task(a, b); }
S* vc_success(Task& t) { return (S*) &t.Success(); }
void vc_glue(S* r, const S& a, const S& b, size_t n) { new (r) S(S::Glue(a, b, n)); }
size_t vc_search(const Inv& t, const Inv::key_type& k) { return t.Search(k); }
const Inv::value_type* vc_find(const Inv& t, const Inv::key_type& k) { return t.find(k); }
const Inv::value_type* vc_invend(const Inv& t) { return t.end(); }
void vc_insert(Inv& t, const Inv::value_type& v, Inv::value_type** p, bool* fresh) { auto r = t.insert(v); *p = r.first; *fresh = r.second; }
void vc_determine(Task& t, size_t n, S* r) { new (r) S(Impl::Determine(t, n)); }
}
extern "C" {
extern const unsigned long vc_off_initial = offsetof(S, m.initial);
extern const unsigned long vc_off_final = offsetof(S, m_final);
extern const unsigned long vc_off_findex = offsetof(S, m_finalIndex);
extern const unsigned long vc_max_char = MaxChar;
extern const unsigned long vc_size_leq = sizeof(Impl::LettersEquality<S>);
extern const unsigned long vc_inv_size = Inv::MaxSize;
extern const unsigned long vc_size_inv = sizeof(Inv);
extern const unsigned long vc_off_inv_map = offsetof(Inv, mMap);
extern const unsigned long vc_off_inv_filled = offsetof(Inv, mFilled);
}
