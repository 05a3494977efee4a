#include "scan.h"
using namespace vh;
template<class Sc> void one(Case& c, const Sc& sc, const std::vector<int>& al, const char* name) {
	Rng& r = c.rng;
	for (int k = 0; k < 12; ++k) {
		std::string t = random_text(r, random_len(r), al);
		size_t off = r.below(16); bool atEnd = r.chance(1, 2);
		c.note(str(name) + " len=" + str(t.size()) + " align=" + str(off) + " text=" + q(t));
		typename Sc::State want; sc.Initialize(want);
		std::string pre = random_text(r, r.below(4), al); steps(sc, want, pre);
		typename Sc::State start = want;
		steps(sc, want, t);
		for (int pad = 0; pad < 2; ++pad) {
			Guarded g(t, off, atEnd, pad ? 0xff : 'a');
			typename Sc::State st = start; Pire::Run(sc, st, g.b, g.e);
			CHECK(eq(st, want), name << ": Run differs from stepping, align " << off << " len " << t.size() << " start after " << q(pre));
			// split
			size_t cut = r.below(t.size() + 1), cut2 = cut + r.below(t.size() - cut + 1);
			st = start; Pire::Run(sc, st, g.b, g.b + cut); Pire::Run(sc, st, g.b + cut, g.b + cut2); Pire::Run(sc, st, g.b + cut2, g.e);
			CHECK(eq(st, want), name << ": split run at " << cut << "," << cut2 << " differs, align " << off << " len " << t.size());
			Pire::RunHelper<Sc> h(sc, start);
			if (pad) h.Run(g.b, t.size()); else h.Run(t);
			CHECK(eq(h.State(), want), name << ": RunHelper differs");
		}
	}
	// whole text from the initial state with marks, through Runner
	std::string t = random_text(r, random_len(r), al);
	typename Sc::State w; sc.Initialize(w); Pire::Step(sc, w, BeginMark); steps(sc, w, t); Pire::Step(sc, w, EndMark);
	auto rn = Pire::Runner(sc).Begin().Run(t.data(), t.data() + t.size()).End();
	CHECK(eq(rn.State(), w), name << ": Runner().Begin().Run().End() differs from stepping");
	CHECK(bool(rn) == sc.Final(w) && !rn == !sc.Final(w), name << ": Runner's verdict is not Final()");
	typename Sc::State w2; sc.Initialize(w2); steps(sc, w2, t);
	CHECK(Pire::Matches(sc, t.data(), t.data() + t.size()) == sc.Final(w2), name << ": Matches() is not Final() after the text");
}
template<class A, class B> void two(Case& c, const A& a, const B& b, const std::vector<int>& al, const char* name) {
	Rng& r = c.rng; std::string t = random_text(r, random_len(r), al); size_t off = r.below(16); Guarded g(t, off, r.chance(1, 2), 0x61);
	c.note(str(name) + " pair len=" + str(t.size()) + " align=" + str(off));
	std::string p1 = random_text(r, r.below(4), al), p2 = random_text(r, r.below(4), al);
	typename A::State x; a.Initialize(x); steps(a, x, p1); typename B::State y; b.Initialize(y); steps(b, y, p2);
	typename A::State x0 = x; typename B::State y0 = y; steps(a, x, t); steps(b, y, t);
	typename A::State x1 = x0; typename B::State y1 = y0; Pire::Run(a, b, x1, y1, g.b, g.e);
	CHECK(eq(x1, x) && eq(y1, y), name << ": running two scanners at once differs from running each alone, text " << q(t));
	typedef Pire::ScannerPair<A, B> P; P p(a, b); typename P::State s(x0, y0); Pire::Run(p, s, g.b, g.e);
	CHECK(eq(s.first, x) && eq(s.second, y), name << ": scanner pair differs");
	typename P::State si; p.Initialize(si); typename A::State xi; a.Initialize(xi); typename B::State yi; b.Initialize(yi);
	CHECK(eq(si.first, xi) && eq(si.second, yi), name << ": scanner pair initial state differs");
}
static std::string small_pat(Rng& r) { static const char* p[] = { "ab", "a+", "[a-c]", "a.b", "(ab)+", "x" }; return p[r.below(6)]; }
VTESTW(tables, 6) {
	Rng& r = c.rng; Nfa a = random_dfa(r, 8, 6); std::vector<int> al = letters_of(a); Fsm f = to_fsm(a); c.note(a.dump());
	switch (c.idx % 7) {
	case 0: one(c, f.Compile<Pire::Scanner>(), al, "Scanner"); break;
	case 1: one(c, f.Compile<Pire::ScannerNoMask>(), al, "ScannerNoMask"); break;
	case 2: one(c, f.Compile<Pire::NonrelocScanner>(), al, "NonrelocScanner"); break;
	case 3: one(c, f.Compile<Pire::NonrelocScannerNoMask>(), al, "NonrelocScannerNoMask"); break;
	case 4: one(c, f.Compile<Pire::SimpleScanner>(), al, "SimpleScanner"); break;
	case 5: one(c, f.Compile<Pire::SlowScanner>(), al, "SlowScanner"); break;
	case 6: { Pire::Scanner s = f.Compile<Pire::Scanner>(); Fsm g = to_fsm(random_dfa(r, 5, 4)); Pire::Scanner s2 = g.Compile<Pire::Scanner>(); one(c, Pire::Scanner::Glue(s, s2), al, "glued Scanner"); break; }
	}
}
VTEST(patterns) {
	Rng& r = c.rng; std::string p = random_pattern(r), q2 = small_pat(r); c.note(q(p) + " " + q(q2));
	std::vector<int> al; for (const char* s = "abcdexyz"; *s; ++s) al.push_back(*s);
	Fsm f = lex(p);
	switch (c.idx % 8) {
	case 0: one(c, Pire::HalfFinalScanner(f), al, "HalfFinalScanner"); break;
	case 1: one(c, Pire::NonrelocHalfFinalScannerNoMask(f), al, "NonrelocHalfFinalScannerNoMask"); break;
	case 2: one(c, Pire::CountingScanner(lex(q2), lex(".*")), al, "CountingScanner"); break;
	case 3: one(c, Pire::AdvancedCountingScanner(lex(q2), lex("[^a]*")), al, "AdvancedCountingScanner"); break;
	case 4: one(c, Pire::NoGlueLimitCountingScanner(lex(q2), lex("[^a]*")), al, "NoGlueLimitCountingScanner"); break;
	case 5: { Pire::Lexer l("a(b+)c"); l.AddFeature(Pire::Features::Capture(1)); one(c, l.Parse().Compile<Pire::CapturingScanner>(), al, "CapturingScanner"); break; }
	case 6: one(c, Pire::NonrelocHalfFinalScanner(f), al, "NonrelocHalfFinalScanner"); break;
	case 7: one(c, Pire::HalfFinalScannerNoMask(f), al, "HalfFinalScannerNoMask"); break;
	}
}
VTEST(pairs) {
	Rng& r = c.rng; Nfa a = random_dfa(r, 6, 5), b = random_dfa(r, 6, 5); std::vector<int> al = letters_of(a), bl = letters_of(b); al.insert(al.end(), bl.begin(), bl.end());
	Fsm f = to_fsm(a), g = to_fsm(b); c.note(a.dump()); c.note(b.dump());
	switch (c.idx % 4) {
	case 0: two(c, f.Compile<Pire::Scanner>(), g.Compile<Pire::Scanner>(), al, "Scanner+Scanner"); break;
	case 1: two(c, f.Compile<Pire::Scanner>(), g.Compile<Pire::SimpleScanner>(), al, "Scanner+SimpleScanner"); break;
	case 2: two(c, f.Compile<Pire::NonrelocScanner>(), g.Compile<Pire::SlowScanner>(), al, "NonrelocScanner+SlowScanner"); break;
	case 3: two(c, f.Compile<Pire::Scanner>(), Pire::CountingScanner(lex(small_pat(r)), lex(".*")), al, "Scanner+CountingScanner"); break;
	}
}
VMAIN
