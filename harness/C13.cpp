#include "scan.h"
using namespace vh;
typedef Pire::CapturingScanner Cap;
// the documented semantics, kept by hand
struct Ref { size_t st, begin, end, pos; Ref(size_t i): st(i), begin(-1), end(-1), pos(0) {} bool captured() const { return begin != size_t(-1) && end != size_t(-1); }
	void take(unsigned a) { if (captured()) return; if (a & 1) begin = pos - 1; else if (a & 2) end = pos - 1; } };
static void same(const Cap& sc, const Cap::State& s, const Ref& r, const std::string& t) {
	CHECK(s.m_counter == r.pos, "counter is " << s.m_counter << " after " << r.pos << " characters, '" << t << "'");
	CHECK(s.Begin() == r.begin && s.End() == r.end, "positions " << s.Begin() << ".." << s.End() << ", expected " << r.begin << ".." << r.end << " after '" << t << "'");
	CHECK(s.Captured() == r.captured(), "Captured() is " << s.Captured() << " after '" << t << "'");
	CHECK(sc.StateIndex(s) == r.st, "state " << sc.StateIndex(s) << ", expected " << r.st << " after '" << t << "'");
	CHECK(s.Begin() == size_t(-1) || s.Begin() < r.pos, "begin is past the characters consumed"); CHECK(s.End() == size_t(-1) || s.End() < r.pos, "end is past the characters consumed");
}
VTESTW(table, 3) {
	Rng& r = c.rng; Nfa a = random_dfa(r, 6, 3); Fsm f = to_fsm(a); f.Determine(); Cap sc; sc.Init(f.Size(), f.Letters(), f.Initial());
	std::map<std::pair<size_t, Char>, std::pair<size_t, unsigned> > tb;
	int busy = r.range(1, 4);
	for (size_t s = 0; s < f.Size(); ++s) for (auto& l : f.Letters()) { size_t to = *f.Destinations(s, l.first).begin(); unsigned act = r.chance(1, busy) ? (unsigned)r.below(4) : 0; sc.SetJump(s, l.first, to, act); for (Char ch : l.second.second) tb[std::make_pair(s, ch)] = std::make_pair(to, act); }
	for (size_t s = 0; s < f.Size(); ++s) sc.SetTag(s, f.IsFinal(s));
	c.note(a.dump()); std::vector<const Nfa*> as(1, &a); std::vector<int> al = reps(as);
	for (int w = 0; w < 10; ++w) {
		Cap::State st, run; sc.Initialize(st); run = st; Ref ref(f.Initial()); std::string t, text; same(sc, st, ref, t);
		bool marks = r.chance(1, 2);
		for (int i = 0; i < 12; ++i) { int ch = al[r.below(al.size())]; if (!marks && ch > 255) continue; t += show(Word(1, ch)); auto x = tb[std::make_pair(ref.st, (Char)ch)];
			++ref.pos; ref.st = x.first; ref.take(x.second); Pire::Step(sc, st, ch); same(sc, st, ref, t); CHECK(sc.Final(st) == f.IsFinal(ref.st), "final flag");
			if (!marks) { text += (char)ch; Cap::State x2 = run; Guarded g(text, r.below(8), true, 0xff); Pire::Run(sc, x2, g.b, g.e); same(sc, x2, ref, t); } }
	}
}
// patterns whose capture is unambiguous
VTEST(patterns) {
	Rng& r = c.rng; std::string pre, mid, post, tpre, tmid, tpost; const char* P[] = { "ab", "x", "[xy]", "-+" }; const char* TP[] = { "ab", "x", "y", "--" };
	int k = r.below(4); pre = P[k]; tpre = TP[k]; if (k == 2 && r.chance(1, 2)) tpre = "x"; if (k == 3) tpre = std::string(r.range(1, 5), '-');
	int m = r.below(3); mid = m == 0 ? "\\d+" : m == 1 ? "[kl]*" : "mm?"; int n = r.range(m == 1 ? 0 : 1, m == 2 ? 2 : 6); for (int i = 0; i < n; ++i) tmid += m == 0 ? (char)('0' + r.below(10)) : m == 1 ? "kl"[r.below(2)] : 'm';
	int q = r.below(3); post = q == 0 ? ";" : q == 1 ? "end" : "[;.]z*"; tpost = q == 0 ? ";" : q == 1 ? "end" : std::string(1, ";."[r.below(2)]) + std::string(r.below(3), 'z');
	std::string junk = r.chance(1, 2) ? "" : std::string(r.below(5), '#'), pat = pre + "(" + mid + ")" + post, text = junk + tpre + tmid + tpost; if (m == 1 && n == 0) return;
	Pire::Lexer lx(pat.data(), pat.data() + pat.size()); lx.AddFeature(Pire::Features::Capture(1)); Fsm f = lx.Parse(); f.Surround(); c.note(pat + " on " + text);
	if (r.chance(1, 2)) { f.Determine(); f.Minimize(); } else if (r.chance(1, 2)) f.Canonize();
	Cap sc(f); Cap::State st; sc.Initialize(st); Pire::Step(sc, st, Pire::BeginMark); Pire::Run(sc, st, text.data(), text.data() + text.size()); Pire::Step(sc, st, Pire::EndMark);
	size_t b = junk.size() + tpre.size(), e = b + tmid.size();
	CHECK(sc.Final(st), "does not match"); CHECK(st.Captured(), "nothing captured"); CHECK(st.Begin() == b + 1 && st.End() == e + 1, "captured " << st.Begin() << ".." << st.End() << ", expected " << b + 1 << ".." << e + 1);
	Cap sc2(sc); Cap::State s2; sc2.Initialize(s2); Pire::Step(sc2, s2, Pire::BeginMark); Pire::Run(sc2, s2, text.data(), text.data() + text.size()); CHECK(s2.m_counter == text.size() + 1, "counter");
}
VMAIN
