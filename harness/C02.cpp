#include "scan.h"
using namespace vh;
// automata whose states have 0..4 exit bytes
static Nfa exits_dfa(Rng& r) {
	Nfa a; a.resize(r.range(1, 6)); a.init = r.below(a.n);
	static const int special[] = { 0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff, 'a', 'b' };
	for (int s = 0; s < a.n; ++s) {
		for (int c = 0; c < (int)MaxChar; ++c) if (c != Epsilon) a.edge(s, c, s);
		int k = r.below(5); for (int i = 0; i < k; ++i) { int c = r.chance(1, 2) ? special[r.below(10)] : (int)r.below(256); a.tr[s][c].clear(); a.edge(s, c, r.below(a.n)); }
		if (r.chance(1, 3)) { int c = r.chance(1, 2) ? BeginMark : EndMark; a.tr[s][c].clear(); a.edge(s, c, r.below(a.n)); }
	}
	for (int i = 0; i < a.n; ++i) if (r.chance(1, 2)) a.fin.insert(i);
	return a;
}
static std::string sparse_text(Rng& r, size_t n, const std::vector<int>& al) {
	std::string t(n, 'x'); int mode = r.below(3);
	for (size_t i = 0; i < n; ++i) t[i] = mode == 0 ? 'x' : (char)r.below(256);
	if (mode == 2) for (size_t i = 0; i < n; ++i) { while (std::find(al.begin(), al.end(), (unsigned char)t[i]) != al.end()) ++t[i]; }
	int k = r.below(4); for (int i = 0; i < k && n && !al.empty(); ++i) t[r.below(n)] = (char)al[r.below(al.size())];
	return t;
}
template<class Sc> size_t walk(const Sc& sc, const Nfa& a, const std::string& t) { (void)a; typename Sc::State st; sc.Initialize(st); steps(sc, st, t); return sc.StateIndex(st); }
// (state numbers of separately compiled scanners may differ: each is compared with stepping itself, verdicts across)
template<class Sc> void run(const Sc& sc, bool wantFinal, const Nfa& a, const std::string& t, size_t off, bool atEnd, const char* name) {
	size_t want = walk(sc, a, t);
	for (int pad = 0; pad < 2; ++pad) {
		Guarded g(t, off, atEnd, pad ? 0xff : 'a'); typename Sc::State st; sc.Initialize(st); Pire::Run(sc, st, g.b, g.e);
		CHECK(sc.StateIndex(st) == want, name << ": state after Run() differs from stepping without shortcuts; align " << off << " text " << q(t));
		CHECK(sc.Final(st) == wantFinal, name << ": verdict differs from the scanner without shortcuts; align " << off << " text " << q(t));
	}
}
VTEST(masks) {
	Rng& r = c.rng; Nfa a = exits_dfa(r); std::vector<int> al; for (int s = 0; s < a.n; ++s) for (auto& t : a.tr[s]) if (t.first < 256 && !t.second.count(s)) al.push_back(t.first);
	Fsm f = to_fsm(a); f.SetIsDetermined(false); c.note(a.dump());
	f.Canonize();
	auto s = f.Compile<Pire::Scanner>(); auto sn = f.Compile<Pire::ScannerNoMask>(); auto n = f.Compile<Pire::NonrelocScanner>(); auto nn = f.Compile<Pire::NonrelocScannerNoMask>();
	// exit information covers every byte that leaves the state: the table itself
	for (size_t k = 0; k < s.Size(); ++k) {
		size_t st = s.IndexToState(k);
		if (s.Header(st).Mask(0) == 1) continue;
		for (int ch = 0; ch < 256; ++ch) { size_t t = st; s.Next(t, ch); if (t == st) continue;
			size_t w = 0x0101010101010101ull * ch; bool have = false;
			for (size_t m = 0; m < 2; ++m) if (s.Header(st).Mask(m) == w) have = true;
			CHECK(have && s.Header(st).Mask(0) != 2, "state " << k << " leaves on byte " << ch << " but its exit masks do not say so"); }
	}
	for (int k = 0; k < 10; ++k) {
		size_t len = r.chance(1, 3) ? r.below(40) : r.below(300), off = r.below(16); bool atEnd = r.chance(1, 2);
		std::string t = sparse_text(r, len, al); bool want; { Pire::ScannerNoMask::State x; sn.Initialize(x); steps(sn, x, t); want = sn.Final(x); }
		c.note("len=" + str(len) + " align=" + str(off) + " " + q(t.substr(0, 60)));
		run(s, want, a, t, off, atEnd, "Scanner"); run(n, want, a, t, off, atEnd, "NonrelocScanner"); run(sn, want, a, t, off, atEnd, "ScannerNoMask"); run(nn, want, a, t, off, atEnd, "NonrelocScannerNoMask");
		Pire::Scanner copy(s); run(copy, want, a, t, off, atEnd, "copied Scanner"); run(Pire::NonrelocScanner(s), want, a, t, off, atEnd, "converted Scanner");
		std::ostringstream o; s.Save(&o); std::string img = o.str(); std::vector<size_t> buf(img.size() / 8 + 3); size_t sh = r.below(2); memcpy(&buf[sh], img.data(), img.size());
		Pire::Scanner mm; mm.Mmap(&buf[sh], img.size()); run(mm, want, a, t, off, atEnd, "mapped Scanner");
	}
}
// the interesting byte at every offset of a block
VTEST(offsets) {
	Rng& r = c.rng; int ch = r.chance(1, 3) ? (int)r.below(4) * 0x55 : (int)r.below(256), ch2 = r.below(256);
	Nfa a; a.resize(3); for (int s = 0; s < 3; ++s) for (int x = 0; x < (int)MaxChar; ++x) if (x != Epsilon) a.edge(s, x, s);
	a.tr[0][ch].clear(); a.edge(0, ch, 1); a.tr[1][ch2].clear(); a.edge(1, ch2, 2); a.fin.insert(2); if (r.chance(1, 2)) { a.tr[0][ch2].clear(); a.edge(0, ch2, 2); }
	Fsm f = to_fsm(a); f.Canonize(); auto s = f.Compile<Pire::Scanner>(); auto sn = f.Compile<Pire::ScannerNoMask>(); auto n = f.Compile<Pire::NonrelocScanner>();
	char bg = (char)r.below(256); c.note("exit " + str(ch) + "," + str(ch2) + " background " + str((int)(unsigned char)bg));
	for (int k = 0; k < 16; ++k) {
		size_t len = r.below(90), off = r.below(16); std::string t(len, bg); if (len) t[r.below(len)] = (char)ch; if (len && r.chance(1, 2)) t[r.below(len)] = (char)ch2;
		bool want; { Pire::ScannerNoMask::State x; sn.Initialize(x); steps(sn, x, t); want = sn.Final(x); } bool e = r.chance(1, 2);
		run(s, want, a, t, off, e, "Scanner"); run(n, want, a, t, off, e, "NonrelocScanner");
	}
}
VMAIN
