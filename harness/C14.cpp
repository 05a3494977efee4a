#include "scan.h"
#include <pire/encoding.h>
using namespace vh;
static const unsigned char kEdge[] = { 0x00, 0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff };
static int seqlen(const std::string& s) { // 0: not a sequence
	if (s.empty()) return 0; unsigned char b = s[0]; int n = b < 0x80 ? 1 : b < 0xc0 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : 0;
	if (!n || (int)s.size() < n) return 0; for (int i = 1; i < n; ++i) if ((s[i] & 0xc0) != 0x80) return 0; return n;
}
static unsigned value(const std::string& s, int n) { if (n == 1) return (unsigned char)s[0]; unsigned r = s[0] & (0xff >> (n + 1)); for (int i = 1; i < n; ++i) r = r << 6 | (s[i] & 0x3f); return r; }
static std::string enc(unsigned c) { std::string s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
static void decode(const Pire::Encoding& e, const std::string& s, int want, unsigned val, const char* name) {
	Guarded g(s, (8 - s.size() % 8) % 8, true, 0x80); const char* p = g.b; unsigned got; bool threw = false;
	try { got = e.FromLocal(p, g.e); } catch (const std::exception&) { threw = true; }
	if (!want) CHECK(threw, name << ": ill-formed bytes " << q(s) << " decoded as " << got);
	else { CHECK(!threw, name << ": well-formed bytes " << q(s) << " rejected"); CHECK(got == val, name << ": " << q(s) << " decoded as " << got << " instead of " << val); CHECK(p - g.b == want, name << ": consumed " << (p - g.b) << " bytes of " << q(s)); }
}
VTESTN(codepoints, 0x1100) {
	unsigned base = c.idx * 256; const Pire::Encoding& u = Pire::Encodings::Utf8(); const Pire::Encoding& l = Pire::Encodings::Latin1();
	c.note("code points from " + str(base));
	for (unsigned k = 0; k < 256; ++k) {
		unsigned cp = base + k; std::string s = u.ToLocal(cp); CHECK(s == enc(cp), "UTF-8 encoding of " << cp << " is " << q(s));
		std::string tail = s + "\x80z"; const char* p = tail.data(); unsigned back = u.FromLocal(p, p + tail.size()); CHECK(back == cp && p == tail.data() + s.size(), "code point " << cp << " decodes as " << back << " after " << (p - tail.data()) << " bytes");
		std::string one = l.ToLocal(cp); CHECK(one == (cp < 0x80 ? std::string(1, (char)cp) : std::string()), "Latin1 encoding of " << cp << " is " << q(one));
	}
}
VTESTW(sequences, 40) {
	Rng& r = c.rng; int n = r.below(6); std::string s; for (int i = 0; i < n; ++i) s += r.chance(1, 6) ? (char)r.below(256) : (char)kEdge[r.below(sizeof kEdge)];
	if (n && r.chance(1, 2)) { s[0] = "\xc3\xe2\xf0\xf7\xdf\xef"[r.below(6)]; for (int i = 1; i < n; ++i) if (r.chance(4, 5)) s[i] = 0x80 | r.below(64); }
	c.note(q(s)); int k = seqlen(s);
	decode(Pire::Encodings::Utf8(), s, k, k ? value(s, k) : 0, "UTF-8");
	decode(Pire::Encodings::Latin1(), s, n && (unsigned char)s[0] < 0x80, n ? (unsigned char)s[0] : 0, "Latin1");
	// whole text
	std::string t; std::vector<unsigned> w; bool bad = false; { std::string rest = s; while (!rest.empty()) { int m = seqlen(rest); if (!m) { bad = true; break; } w.push_back(value(rest, m)); rest = rest.substr(m); } }
	std::vector<unsigned> got; bool threw = false; try { Pire::Encodings::Utf8().FromLocal(s.data(), s.data() + s.size(), std::back_inserter(got)); } catch (const std::exception&) { threw = true; }
	CHECK(threw == bad && (bad || got == w), "decoding the text " << q(s) << " gives the wrong characters");
}
VTEST(dot) {
	Rng& r = c.rng; const Pire::Encoding& u = Pire::Encodings::Utf8(); int k = r.range(1, 2); std::string pre = r.chance(1, 2) ? "a" : "";
	Fsm f; if (!pre.empty()) f.Append('a'); for (int i = 0; i < k; ++i) u.AppendDot(f);
	if (r.chance(1, 2)) f.Canonize();
	Nfa a = from_fsm(f);
	for (int m = 0; m < 300; ++m) {
		int n = r.below(8); std::string s; for (int i = 0; i < n; ++i) s += (char)kEdge[r.below(sizeof kEdge)];
		if (r.chance(2, 3)) { s.clear(); for (int i = 0, e = k + (int)r.below(3) - 1; i < e; ++i) { unsigned cp = r.chance(1, 4) ? r.below(128) : r.chance(1, 3) ? r.below(0x800) : r.chance(1, 2) ? r.below(0x10000) : r.below(0x110000); s += enc(cp); } if (r.chance(1, 4) && !s.empty()) s[r.below(s.size())] ^= 1 << r.below(8); }
		int cnt = 0; bool ok = true; { std::string rest = s; while (!rest.empty()) { int l = seqlen(rest); if (!l) { ok = false; break; } rest = rest.substr(l); ++cnt; } }
		Word w; for (char x : pre + s) w.push_back((unsigned char)x);
		CHECK(a.accepts(w) == (ok && cnt == k), k << " UTF-8 dot(s) after " << q(pre) << ": text " << q(s) << (a.accepts(w) ? " is accepted" : " is rejected"));
	}
	c.note("dots " + str(k) + " prefix " + q(pre));
}
VTEST(pattern) {
	Rng& r = c.rng; std::vector<unsigned> cps; std::string p; int n = r.range(1, 4); for (int i = 0; i < n; ++i) { unsigned cp = r.chance(1, 2) ? 0x430 + r.below(32) : r.chance(1, 2) ? 0x4e00 + r.below(200) : 0x1f600 + r.below(60); cps.push_back(cp); p += enc(cp); }
	std::vector<Pire::wchar32> ucs; Pire::Encodings::Utf8().FromLocal(p.data(), p.data() + p.size(), std::back_inserter(ucs)); Pire::Lexer l(ucs.begin(), ucs.end()); l.SetEncoding(Pire::Encodings::Utf8()); Fsm f = l.Parse(); Nfa a = from_fsm(f); Word w; for (char x : p) w.push_back((unsigned char)x);
	c.note(q(p)); CHECK(a.accepts(w), "pattern " << q(p) << " does not match itself"); for (size_t i = 0; i < w.size(); ++i) { Word v = w; v[i] ^= 1; CHECK(!a.accepts(v), "pattern " << q(p) << " matches something else"); }
}
VMAIN
