#include "objs.h"
using namespace vh;
// one stored scanner and what reading it back must give; the targets already hold another scanner
struct Slot { std::string name, bytes; std::function<void(std::istream&)> load; std::function<const void*(const void*, size_t)> map; bool unaligned; };
template<class Sc> Sc* target(Rng& r, std::string& d) { if (r.chance(1, 4)) return new Sc; return new Sc(make(r, d, (const Sc*)0)); }
template<class Sc> std::shared_ptr<Sc> source(Rng& r, std::string& d, std::shared_ptr<Image>& keep, bool empty) {
	if (empty && !IsLoaded<Sc>::value) return std::make_shared<Sc>();
	std::shared_ptr<Sc> s = std::make_shared<Sc>(make(r, d, (const Sc*)0));
	if (r.chance(1, 3)) { std::string b = saved(*s); if (CanMap<Sc>::value && r.chance(1, 2)) { d += " (mapped)"; keep = std::make_shared<Image>(b); auto m = std::make_shared<Sc>(); Mapper<Sc>::map(*m, keep->p(), b.size()); SAME(trace(*m, 7), trace(*s, 7), "mapped" << d); return m; } d += " (loaded)"; std::istringstream in(b); auto l = std::make_shared<Sc>(); l->Load(&in); return l; }
	return s;
}
template<class Sc> Slot slot(Rng& r, const char* name) {
	Slot s; s.name = name; std::string d = name; std::shared_ptr<Image> keep; auto src = source<Sc>(r, d, keep, r.chance(1, 10)); unsigned seed = r.next(); auto want = std::make_shared<Trace>(trace(*src, seed)); s.bytes = saved(*src); CHECK(trace(*src, seed) == *want, "Save changed the scanner" << d); CHECK(saved(*src) == s.bytes || d.find("Slow") != std::string::npos, "saving twice gives different data" << d);
	std::string td = " over"; auto t = std::shared_ptr<Sc>(target<Sc>(r, td)), t2 = std::shared_ptr<Sc>(target<Sc>(r, td)); s.name = d; s.unaligned = std::is_same<Sc, Ngl>::value && s.bytes.size() % sizeof(size_t);
	s.load = [=](std::istream& in) { t->Load(&in); SAME(trace(*t, seed), *want, "loaded " << d << td); };
	if (CanMap<Sc>::value) s.map = [=](const void* p, size_t n) { const void* e = Mapper<Sc>::map(*t2, p, n); SAME(trace(*t2, seed), *want, "mapped " << d << td); Sc copy(*t2); SAME(trace(copy, seed), *want, "copy of mapped " << d); return e; };
	return s;
}
Slot any_slot(Rng& r) {
	switch (r.below(12)) {
		case 0: return slot<Pire::Scanner>(r, "Scanner"); case 1: return slot<Pire::ScannerNoMask>(r, "ScannerNoMask"); case 2: return slot<Pire::NonrelocScanner>(r, "NonrelocScanner"); case 3: return slot<Pire::HalfFinalScanner>(r, "HalfFinalScanner");
		case 4: return slot<Simple>(r, "SimpleScanner"); case 5: case 6: return slot<Slow>(r, "SlowScanner"); case 7: return slot<Cnt>(r, "CountingScanner"); case 8: return slot<Adv>(r, "AdvancedCountingScanner"); case 9: return slot<Ngl>(r, "NoGlueLimitCountingScanner"); case 10: return slot<SlowCap>(r, "SlowCapturingScanner"); default: return slot<Cap>(r, "CapturingScanner");
	}
}
VTESTW(stored_in_sequence, 3) {
	Rng& r = c.rng; int n = r.range(1, 4); std::vector<Slot> s; std::string all; for (int i = 0; i < n; ++i) { s.push_back(any_slot(r)); all += s.back().bytes; c.note(s.back().name); } all += "SENTINEL";
	auto loadAll = [&](std::istream& in, const char* how) { size_t off = 0; for (auto& x : s) { x.load(in); off += x.bytes.size(); CHECK(in.good() && (size_t)in.tellg() == off, how << ": consumed up to " << in.tellg() << ", stored " << off); } };
	{ std::istringstream in(all); loadAll(in, "Load"); std::string rest(8, 0); in.read(&rest[0], 8); CHECK(rest == "SENTINEL", "data behind the scanners: " << q(rest)); }
	{ Pire::MemoryInput in(all.data(), all.size()); for (auto& x : s) x.load(in); std::string rest(8, 0); in.read(&rest[0], 8); CHECK(rest == "SENTINEL", "MemoryInput: data behind the scanners: " << q(rest)); }
	bool ends = r.chance(1, 2); size_t len = all.size() - (ends ? 8 : 0); std::unique_ptr<char[]> exact(new char[len]); memcpy(exact.get(), all.data(), len); const char* p = exact.get(); size_t left = len;
	for (auto& x : s) {
		if (!x.map) { size_t step = x.bytes.size(); p += step; left -= step; continue; }
		const char* e = (const char*)x.map(p, left); CHECK(e == p + x.bytes.size(), "Mmap returned +" << (e - p) << ", stored " << x.bytes.size() << " bytes: " << x.name); left -= e - p; p = e;
		if (x.unaligned) { if (!is_known("noglue-unaligned")) CHECK(&x == &s.back(), "unaligned end of " << x.name); report_known("noglue-unaligned", "a stored NoGlueLimitCountingScanner with an odd number of action words ends unaligned; nothing can be mapped behind it"); break; }
	}
}
template<class Sc> void rejected(Case& c, Sc& t, const Trace& before, unsigned seed, const std::string& bytes, const std::string& what) {
	{ std::istringstream in(bytes); EXPECT_THROW(t.Load(&in), "Load accepts " << what); SAME(trace(t, seed), before, "target of a failed Load, " << what); }
	{ Pire::MemoryInput in(bytes.data(), bytes.size()); EXPECT_THROW(t.Load(&in), "Load from memory accepts " << what); SAME(trace(t, seed), before, "target of a failed Load from memory, " << what); }
	if (CanMap<Sc>::value) { std::unique_ptr<char[]> exact(new char[bytes.size()]); memcpy(exact.get(), bytes.data(), bytes.size()); EXPECT_THROW(Mapper<Sc>::map(t, exact.get(), bytes.size()), "Mmap accepts " << what); SAME(trace(t, seed), before, "target of a failed Mmap, " << what); }
}
template<class Sc> struct Locs { static size_t reloc() { return 0; } static size_t shortcut() { return 0; } };
template<class Sc> struct ScLocs { static size_t at(const void* b, const void* f) { return sizeof(Pire::Header) + ((const char*)f - (const char*)b); } };
template<class S> struct Locs<Pire::Impl::Scanner<Pire::Impl::Relocatable, S> > { typedef Pire::Impl::Scanner<Pire::Impl::Relocatable, S> Sc; static size_t reloc() { Sc s; return ScLocs<Sc>::at(&s.m, &s.m.relocationSignature); } static size_t shortcut() { Sc s; return ScLocs<Sc>::at(&s.m, &s.m.shortcuttingSignature); } };
template<class Sc> void bad(Case& c, const char* name) {
	Rng& r = c.rng; std::string d = name; std::shared_ptr<Image> keep; auto src = source<Sc>(r, d, keep, r.chance(1, 12)); std::string good = saved(*src); std::string td = " over"; std::unique_ptr<Sc> t(target<Sc>(r, td)); unsigned seed = r.next(); Trace before = trace(*t, seed); c.note(d + td);
	{ size_t k = r.chance(1, 4) ? r.below(std::min<size_t>(good.size(), 160)) : r.chance(1, 3) ? good.size() - 1 - r.below(std::min<size_t>(good.size(), 24)) : r.below(good.size()); c.note("cut at " + str(k) + " of " + str(good.size())); rejected(c, *t, before, seed, good.substr(0, k), "data cut at " + str(k) + " of " + str(good.size())); }
	{ std::string b = good; size_t f = r.below(6); uint32_t v; memcpy(&v, &b[4 * f], 4); uint32_t o = v; do { v = r.chance(1, 2) ? o ^ (1u << r.below(32)) : r.chance(1, 2) ? (uint32_t)r.below(9) : (uint32_t)r.next(); } while (v == o || (f == 1 && v == 6) || (f == 4 && IsLoaded<Sc>::value && (v == 4 || v == 5))); memcpy(&b[4 * f], &v, 4); static const char* const fn[] = { "magic", "version", "pointer size", "word size", "kind", "header size" }; rejected(c, *t, before, seed, b, std::string("data with ") + fn[f] + " " + str(v) + " instead of " + str(o)); }
	if (Locs<Sc>::reloc()) { std::string b = good; size_t at = r.chance(1, 2) ? Locs<Sc>::reloc() : Locs<Sc>::shortcut(); b[at + r.below(4)] ^= 1 << r.below(8); rejected(c, *t, before, seed, b, "data with another signature at " + str(at)); }
	if (CanMap<Sc>::value) { std::vector<char> b(good.size() + 16); size_t off = (8 - (size_t)b.data() % 8) % 8 + r.range(1, 7); memcpy(&b[off], good.data(), good.size()); EXPECT_THROW(Mapper<Sc>::map(*t, &b[off], good.size()), "Mmap accepts a misaligned address"); SAME(trace(*t, seed), before, "target of a misaligned Mmap"); }
	{ Slot o = any_slot(r); uint32_t to, tt; memcpy(&to, &o.bytes[16], 4); memcpy(&tt, &good[16], 4); if (to != tt && !(IsLoaded<Sc>::value && (to == 4 || to == 5))) rejected(c, *t, before, seed, o.bytes, "a stored " + o.name); }
	std::istringstream in(good); t->Load(&in); SAME(trace(*t, seed), trace(*src, seed), "good data after the bad");
}
VTEST(bad_scanner) { bad<Pire::Scanner>(c, "Scanner"); }
VTEST(bad_scanner_nomask) { bad<Pire::ScannerNoMask>(c, "ScannerNoMask"); }
VTEST(bad_nonreloc) { bad<Pire::NonrelocScanner>(c, "NonrelocScanner"); }
VTEST(bad_simple) { bad<Simple>(c, "SimpleScanner"); }
VTEST(bad_slow) { bad<Slow>(c, "SlowScanner"); }
VTEST(bad_slowcapturing) { bad<SlowCap>(c, "SlowCapturingScanner"); }
VTEST(bad_capturing) { bad<Cap>(c, "CapturingScanner"); }
VTEST(bad_counting) { if (c.rng.chance(1, 2)) bad<Cnt>(c, "CountingScanner"); else bad<Adv>(c, "AdvancedCountingScanner"); }
VTEST(bad_nolimit) { bad<Ngl>(c, "NoGlueLimitCountingScanner"); }
// data of one shortcut kind is not taken for the other
VTEST(other_kind) {
	Rng& r = c.rng; std::string d; Pire::Scanner a = make(r, d, (const Pire::Scanner*)0); Pire::ScannerNoMask b(make(r, d, (const Pire::ScannerNoMask*)0)); Pire::ScannerNoMask t(make(r, d, (const Pire::ScannerNoMask*)0)); Pire::Scanner u = make(r, d, (const Pire::Scanner*)0); c.note(d); unsigned seed = r.next();
	rejected(c, t, trace(t, seed), seed, saved(a), "a Scanner as a ScannerNoMask"); rejected(c, u, trace(u, seed), seed, saved(b), "a ScannerNoMask as a Scanner");
}
VMAIN
