#include "scan.h"
using namespace vh;
template<class Sc> void one(Case& c, const Sc& sc, const std::vector<int>& al, const char* name) {
	Rng& r = c.rng;
	for (int k = 0; k < 6; ++k) {
		std::string t = random_text(r, random_len(r), al); size_t off = r.below(16); bool atEnd = r.chance(1, 2), b = r.chance(1, 3), e = r.chance(1, 3);
		c.note(str(name) + " len=" + str(t.size()) + " align=" + str(off) + (b ? " begin" : "") + (e ? " end" : "") + " " + q(t.substr(0, 80)));
		Guarded g(t, off, atEnd, 'a');
		// reference
		typename Sc::State st; sc.Initialize(st); if (b) Pire::Step(sc, st, BeginMark);
		long longest = -1, shortest = -1;
		if (sc.Final(st)) longest = shortest = 0;
		for (size_t i = 0; i < t.size(); ++i) { Pire::Step(sc, st, (unsigned char)t[i]); if (sc.Final(st)) { longest = i + 1; if (shortest < 0) shortest = i + 1; } }
		if (e) { Pire::Step(sc, st, EndMark); if (sc.Final(st)) { longest = t.size(); if (shortest < 0) shortest = t.size(); } }
		const char* lp = Pire::LongestPrefix(sc, g.b, g.e, b, e); const char* sp = Pire::ShortestPrefix(sc, g.b, g.e, b, e);
		long gl = lp ? lp - g.b : -1, gs = sp ? sp - g.b : -1;
		if (e && gs != shortest) { // the end mark after an early stop is fed to the state of the stop: only the marks differ
			CHECK(gs == shortest, name << ": ShortestPrefix is " << gs << ", should be " << shortest << " (with end mark)"); }
		CHECK(gl == longest, name << ": LongestPrefix is " << gl << ", should be " << longest << " (length " << t.size() << ", align " << off << ", marks " << b << e << ", text " << q(t) << ")");
		CHECK(gs == shortest, name << ": ShortestPrefix is " << gs << ", should be " << shortest << " (length " << t.size() << ", align " << off << ", marks " << b << e << ", text " << q(t) << ")");
		// backwards
		sc.Initialize(st); if (b) Pire::Step(sc, st, EndMark); longest = shortest = -1;
		if (sc.Final(st)) longest = shortest = 0;
		for (size_t i = 0; i < t.size(); ++i) { Pire::Step(sc, st, (unsigned char)t[t.size() - 1 - i]); if (sc.Final(st)) { longest = i + 1; if (shortest < 0) shortest = i + 1; } }
		if (e) { Pire::Step(sc, st, BeginMark); if (sc.Final(st)) { longest = t.size(); if (shortest < 0) shortest = t.size(); } }
		std::string own = "#" + t; const char* rb = own.data() + own.size() - 1; const char* re = own.data();
		const char* ls = Pire::LongestSuffix(sc, rb, re, b, e); const char* ss = Pire::ShortestSuffix(sc, rb, re, b, e);
		gl = ls ? rb - ls : -1; gs = ss ? rb - ss : -1;
		CHECK(gl == longest, name << ": LongestSuffix is " << gl << ", should be " << longest << " (marks " << b << e << ", text " << q(t) << ")");
		if (!e) CHECK(gs == shortest, name << ": ShortestSuffix is " << gs << ", should be " << shortest << " (marks " << b << e << ", text " << q(t) << ")");
		else {  // with the mark: nothing shorter found
			CHECK(gs == shortest, name << ": ShortestSuffix is " << gs << ", should be " << shortest << " (marks " << b << e << ", text " << q(t) << ")"); }
	}
}
// absorbing states around, so that dead states occur
static Nfa some(Rng& r) { Nfa a = random_dfa(r, 6, 5); int d = a.add(); for (int x = 0; x < (int)MaxChar; ++x) if (x != Epsilon) a.edge(d, x, d); if (r.chance(1, 3)) a.fin.insert(d);
	for (int s = 0; s < d; ++s) if (r.chance(1, 2)) { int x = r.below(256); if (r.chance(1, 2)) x = "abc"[r.below(3)]; a.tr[s][x].clear(); a.edge(s, x, d); } return a; }
VTESTW(tables, 4) {
	Rng& r = c.rng; Nfa a = some(r); std::vector<int> al = letters_of(a); Fsm f = to_fsm(a); c.note(a.dump());
	switch (c.idx % 8) {
	case 0: one(c, f.Compile<Pire::Scanner>(), al, "Scanner"); break;
	case 1: one(c, f.Compile<Pire::ScannerNoMask>(), al, "ScannerNoMask"); break;
	case 2: one(c, f.Compile<Pire::NonrelocScanner>(), al, "NonrelocScanner"); break;
	case 3: one(c, f.Compile<Pire::NonrelocScannerNoMask>(), al, "NonrelocScannerNoMask"); break;
	case 4: one(c, f.Compile<Pire::SimpleScanner>(), al, "SimpleScanner"); break;
	case 5: one(c, f.Compile<Pire::SlowScanner>(), al, "SlowScanner"); break;
	case 6: { Fsm g = to_fsm(some(r)); one(c, Pire::Scanner::Glue(f.Compile<Pire::Scanner>(), g.Compile<Pire::Scanner>()), al, "glued Scanner"); break; }
	case 7: one(c, Pire::Scanner(f.Compile<Pire::Scanner>()), al, "copied Scanner"); break;
	}
}
VTEST(patterns) {
	Rng& r = c.rng; std::string p = random_pattern(r); c.note(q(p)); std::vector<int> al; for (const char* s = "abcdexyz"; *s; ++s) al.push_back(*s);
	Fsm f = lex(p);
	switch (c.idx % 3) { case 0: one(c, f.Compile<Pire::Scanner>(), al, "Scanner"); break; case 1: one(c, f.Compile<Pire::SimpleScanner>(), al, "SimpleScanner"); break; case 2: one(c, f.Compile<Pire::NonrelocScanner>(), al, "NonrelocScanner"); }
}
VMAIN
