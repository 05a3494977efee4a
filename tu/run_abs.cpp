// Instantiates the real run.h templates over a scanner about which nothing is known:
// the methods have no body, so the verifier sees calls to uninterpreted functions.
#include <pire/run.h>
namespace vc {
template<int N> struct Scn {
	typedef size_t State;
	typedef Pire::ui32 Action;
	typedef Pire::ui16 Letter;
	Action Next(State& s, Pire::Char c) const;
	void TakeAction(State& s, Action a) const;
	bool Final(const State& s) const;
	bool Dead(const State& s) const;
	void Initialize(State& s) const;
	size_t StateIndex(State s) const;
};
typedef Scn<1> Abs;
typedef Scn<2> Abs2;
}
using namespace Pire;
typedef vc::Abs A;
typedef vc::Abs2 B;
typedef ScannerPair<A, B> P;
extern "C" {
void vc_run(const A& sc, A::State& st, const char* b, const char* e) { Run(sc, st, b, e); }
void vc_run2(const A& a, const B& b, A::State& x, B::State& y, const char* p, const char* e) { Run(a, b, x, y, p, e); }
void vc_step(const A& a, A::State& x, Char c) { Step(a, x, c); }
void vc_pair_step(const A& a, const B& b, P::State& s, Char c) { P p(a, b); Step(p, s, c); }
void vc_pair_init(const A& a, const B& b, P::State& s) { P p(a, b); p.Initialize(s); }
bool vc_pair_final(const A& a, const B& b, const P::State& s) { P p(a, b); return p.Final(s); }
bool vc_pair_dead(const A& a, const B& b, const P::State& s) { P p(a, b); return p.Dead(s); }
const char* vc_longest_prefix(const A& a, const char* b, const char* e, bool x, bool y) { return LongestPrefix(a, b, e, x, y); }
const char* vc_shortest_prefix(const A& a, const char* b, const char* e, bool x, bool y) { return ShortestPrefix(a, b, e, x, y); }
const char* vc_longest_suffix(const A& a, const char* b, const char* e, bool x, bool y) { return LongestSuffix(a, b, e, x, y); }
const char* vc_shortest_suffix(const A& a, const char* b, const char* e, bool x, bool y) { return ShortestSuffix(a, b, e, x, y); }
typedef RunHelper<A> H;
A::State vc_helper_init(const A& a) { H h(a); return h.State(); }
A::State vc_helper_run(const A& a, A::State s, const char* b, const char* e) { H h(a, s); h.Run(b, e); return h.State(); }
A::State vc_helper_run_size(const A& a, A::State s, const char* b, size_t n) { H h(a, s); h.Run(b, n); return h.State(); }
A::State vc_helper_begin(const A& a, A::State s) { H h(a, s); h.Begin(); return h.State(); }
A::State vc_helper_end(const A& a, A::State s) { H h(a, s); h.End(); return h.State(); }
A::State vc_helper_step(const A& a, A::State s, Char c) { H h(a, s); h.Step(c); return h.State(); }
bool vc_helper_yes(const A& a, A::State s) { H h(a, s); return h; }
bool vc_helper_no(const A& a, A::State s) { H h(a, s); return !h; }
A::State vc_runner(const A& a) { return Runner(a).State(); }
A::State vc_runner_at(const A& a, A::State s) { return Runner(a, s).State(); }
bool vc_matches(const A& a, const char* b, const char* e) { return Matches(a, b, e); }
}
