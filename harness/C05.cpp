#include "objs.h"
using namespace vh;
template<class Sc> struct Other { typedef void T; };
template<class S> struct Other<Pire::Impl::Scanner<Pire::Impl::Relocatable, S> > { typedef Pire::Impl::Scanner<Pire::Impl::Nonrelocatable, S> T; };
template<class S> struct Other<Pire::Impl::Scanner<Pire::Impl::Nonrelocatable, S> > { typedef Pire::Impl::Scanner<Pire::Impl::Relocatable, S> T; };
template<class S> struct Other<Pire::Impl::HalfFinalScanner<Pire::Impl::Relocatable, S> > { typedef Pire::Impl::HalfFinalScanner<Pire::Impl::Nonrelocatable, S> T; };
template<class S> struct Other<Pire::Impl::HalfFinalScanner<Pire::Impl::Nonrelocatable, S> > { typedef Pire::Impl::HalfFinalScanner<Pire::Impl::Relocatable, S> T; };
template<class Sc, class O> struct Conv { static Sc* go(const Sc& s, const Trace& want, unsigned seed, bool through) { O* o = new O(s); SAME(trace(*o, seed), want, "converted"); SAME(trace(s, seed), want, "the source of a conversion"); if (through) { O* o2 = new O(*o); SAME(trace(*o2, seed), want, "copy of a converted scanner"); delete o; o = o2; } Sc* r = new Sc(*o); delete o; return r; } };
template<class Sc> struct Conv<Sc, void> { static Sc* go(const Sc& s, const Trace&, unsigned, bool) { return new Sc(s); } };
// a history of objects; what each should behave like is kept as the trace of the scanner first compiled
template<class Sc> void history(Case& c, const char* name) {
	Rng& r = c.rng; const int N = 4; std::vector<std::unique_ptr<Image> > images; std::unique_ptr<Sc> o[N]; Trace want[N]; std::string d = name; unsigned seed = r.next();
	Sc null; Trace nullTrace = trace(null, seed);
	auto check = [&](int i, const std::string& what) { if (o[i]) SAME(trace(*o[i], seed), want[i], what << " #" << i); };
	auto fresh = [&](int i) { if (r.chance(1, 8)) { o[i].reset(new Sc); want[i] = nullTrace; d += " default"; } else { o[i].reset(new Sc(make(r, d, (const Sc*)0))); want[i] = trace(*o[i], seed); } d += "=>#" + str(i); };
	fresh(0); fresh(1); int ops = r.range(3, 9); c.note(d); d.clear();
	for (int k = 0; k < ops; ++k) {
		int i = r.below(N), j = r.below(N); if (!o[i]) i = 0; if (!o[i]) fresh(i);
		d += " "; int op = r.below(12);
		if (op < 2) { Sc* n = new Sc(*o[i]); d += "copy #" + str(i) + "->#" + str(j); SAME(trace(*n, seed), want[i], "copy," << d); check(i, "source of the copy," + d); Trace w = want[i]; o[j].reset(n); want[j] = w; }
		else if (op < 4) { if (!o[j]) fresh(j); d += "#" + str(j) + " = #" + str(i); *o[j] = *o[i]; want[j] = want[i]; check(i, "source of the assignment," + d); }
		else if (op < 6) { if (!o[j]) fresh(j); d += "swap #" + str(i) + " #" + str(j); o[i]->Swap(*o[j]); std::swap(want[i], want[j]); }
		else if (op == 6) { Sc* n = new Sc(std::move(*o[i])); d += "move #" + str(i) + "->#" + str(j); Trace w = want[i]; o[i].reset(); o[j].reset(n); want[j] = w; if (i == j) want[i] = w; }
		else if (op == 7) { if (!o[j]) fresh(j); d += "#" + str(j) + " = move #" + str(i); if (i != j) { *o[j] = std::move(*o[i]); want[j] = want[i]; if (r.chance(1, 2)) o[i].reset(); else { *o[i] = *o[j]; want[i] = want[j]; } } }
		else if (op == 8) { d += "convert #" + str(i) + "->#" + str(j); Sc* n = Conv<Sc, typename Other<Sc>::T>::go(*o[i], want[i], seed, r.chance(1, 2)); Trace w = want[i]; o[j].reset(n); want[j] = w; }
		else if (op == 9 && !(IsLoaded<Sc>::value && o[i]->Empty())) { std::string s = saved(*o[i]); if (CanMap<Sc>::value && r.chance(2, 3)) { d += "map #" + str(i) + "->#" + str(j); images.push_back(std::unique_ptr<Image>(new Image(s))); if (!o[j]) fresh(j); Mapper<Sc>::map(*o[j], images.back()->p(), s.size()); } else { d += "load #" + str(i) + "->#" + str(j); std::istringstream in(s); if (!o[j]) fresh(j); o[j]->Load(&in); } want[j] = want[i]; }
		else if (op == 9 || op == 10) { d += "destroy #" + str(i); o[i].reset(); }
		else { fresh(j); d += " replaces #" + str(j); }
		if (o[j]) { check(j, "after" + d); } if (o[i]) check(i, "after" + d);
	}
	c.note(d); for (int i = 0; i < N; ++i) check(i, "at the end of" + d);
}
VTESTW(scanner, 2) { history<Pire::Scanner>(c, "Scanner"); }
VTEST(scanner_nomask) { history<Pire::ScannerNoMask>(c, "ScannerNoMask"); }
VTESTW(nonreloc, 2) { history<Pire::NonrelocScanner>(c, "NonrelocScanner"); }
VTEST(nonreloc_nomask) { history<Pire::NonrelocScannerNoMask>(c, "NonrelocScannerNoMask"); }
VTEST(halffinal) { if (c.rng.chance(1, 2)) history<Pire::HalfFinalScanner>(c, "HalfFinalScanner"); else history<Pire::NonrelocHalfFinalScannerNoMask>(c, "NonrelocHalfFinalScannerNoMask"); }
VTESTW(simple, 2) { history<Simple>(c, "SimpleScanner"); }
VTESTW(slow, 2) { history<Slow>(c, "SlowScanner"); }
VTESTW(capturing, 2) { history<Cap>(c, "CapturingScanner"); }
VTEST(counting) { history<Cnt>(c, "CountingScanner"); }
VTEST(advanced) { history<Adv>(c, "AdvancedCountingScanner"); }
VTESTW(nolimit, 2) { history<Ngl>(c, "NoGlueLimitCountingScanner"); }
VMAIN
