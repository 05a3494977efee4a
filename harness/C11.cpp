#include "objs.h"
#include <deque>
#include <numeric>
using namespace vh;
// a glued scanner together with the scanners it must report, in order
template<class Sc> struct Glued { Sc sc; std::vector<std::shared_ptr<Sc> > parts; std::vector<size_t> shift; std::string d; size_t count; Glued(): count(0) {} };
template<class Sc> Glued<Sc> leaf(Case& c) {
	Rng& r = c.rng; Glued<Sc> g; std::shared_ptr<Sc> s; std::string d;
	if (r.chance(1, 12)) { s = std::make_shared<Sc>(); d = "empty"; }
	else { Fsm f = some_fsm(r, d); s = std::make_shared<Sc>(f); if (r.chance(1, 10)) { s = std::make_shared<Sc>(Sc(f)); } }
	g.sc = *s; if (!s->Empty()) { g.parts.push_back(s); g.shift.push_back(0); g.count = s->RegexpsCount(); } g.d = d; return g;
}
// every reachable combination of the glued scanner's state with the states of its parts
template<class Sc> size_t compare(const Sc& sc, const std::vector<std::shared_ptr<Sc> >& parts, const std::vector<size_t>& shift, const std::string& d, size_t limit) {
	typedef std::vector<size_t> St; St init(parts.size() + 1); { size_t q; sc.Initialize(q); init[0] = q; for (size_t i = 0; i < parts.size(); ++i) { parts[i]->Initialize(q); init[i + 1] = q; } }
	std::set<St> seen; std::set<St> partStates; std::deque<St> todo; seen.insert(init); todo.push_back(init);
	while (!todo.empty() && seen.size() <= limit) {
		St s = todo.front(); todo.pop_front(); std::vector<size_t> want, got; bool fin = false, dead = true; for (size_t i = 0; i < parts.size(); ++i) { auto a = parts[i]->AcceptedRegexps(s[i + 1]); for (auto p = a.first; p != a.second; ++p) want.push_back(*p + shift[i]); fin = fin || parts[i]->Final(s[i + 1]); dead = dead && parts[i]->Dead(s[i + 1]); }
		auto a = sc.AcceptedRegexps(s[0]); for (auto p = a.first; p != a.second; ++p) { got.push_back(*p); CHECK(got.size() <= want.size(), "more accepted regexps than expected in " << d); } CHECK(got == want, "accepted regexps of the glued scanner: " << got.size() << ", of its parts: " << want.size() << " in " << d);
		CHECK((bool)sc.Final(s[0]) == fin, "final " << sc.Final(s[0]) << ", one of the parts: " << fin << " in " << d); CHECK((bool)sc.Dead(s[0]) == dead, "dead " << sc.Dead(s[0]) << ", all the parts: " << dead << " in " << d);
		for (unsigned ch = 0; ch < MaxChar; ++ch) if (ch != Epsilon) { St n = s; size_t q = n[0]; sc.Next(q, ch); n[0] = q; for (size_t i = 0; i < parts.size(); ++i) { q = n[i + 1]; parts[i]->Next(q, ch); n[i + 1] = q; } if (seen.insert(n).second) todo.push_back(n); }
	}
	return seen.size();
}
template<class Sc> size_t product(const Sc& a, const Sc& b) {
	std::set<std::pair<size_t, size_t> > seen; std::deque<std::pair<size_t, size_t> > todo; size_t x, y; a.Initialize(x); b.Initialize(y); seen.insert(std::make_pair(x, y)); todo.push_back(std::make_pair(x, y));
	while (!todo.empty() && seen.size() < 5000) { auto s = todo.front(); todo.pop_front(); for (unsigned ch = 0; ch < MaxChar; ++ch) if (ch != Epsilon) { x = s.first; y = s.second; a.Next(x, ch); b.Next(y, ch); if (seen.insert(std::make_pair(x, y)).second) todo.push_back(std::make_pair(x, y)); } }
	return seen.size();
}
template<class Sc> Glued<Sc> join(Case& c, const Glued<Sc>& a, const Glued<Sc>& b) {
	Rng& r = c.rng; Glued<Sc> g; g.d = "(" + a.d + " +" + b.d + ")"; size_t size = (a.sc.Empty() || b.sc.Empty()) ? 0 : product(a.sc, b.sc); size_t limit = r.chance(1, 2) ? 0 : r.chance(1, 2) ? size + r.range(-3, 3) : r.chance(1, 2) ? r.range(1, 6) : r.chance(1, 2) ? 300000 : 2000; if ((int)limit < 0) limit = 1;
	g.sc = Sc::Glue(a.sc, b.sc, limit); g.d += "<" + str(limit) + ">";
	if (size && g.sc.Empty()) { CHECK(limit && size >= limit, "Glue() failed although the result has " << size << " states: " << g.d); c.note("too big " + g.d); g.sc = Sc::Glue(a.sc, b.sc); CHECK(!g.sc.Empty(), "Glue() of " << size << " states fails " << g.d); }
	if (size && limit) CHECK(g.sc.Size() <= size, "glued scanner has " << g.sc.Size() << " states, the product " << size << " in " << g.d);
	g.parts = a.parts; g.shift = a.shift; for (size_t i = 0; i < b.parts.size(); ++i) { g.parts.push_back(b.parts[i]); g.shift.push_back(b.shift[i] + a.count); } g.count = a.count + b.count;
	CHECK(g.sc.RegexpsCount() == g.count, "RegexpsCount() " << g.sc.RegexpsCount() << ", expected " << g.count << " in " << g.d); CHECK(g.sc.Empty() == g.parts.empty(), "Empty() of " << g.d); return g;
}
template<class Sc> void glue(Case& c) {
	Rng& r = c.rng; int n = r.range(2, 5); std::vector<Glued<Sc> > v; for (int i = 0; i < n; ++i) v.push_back(leaf<Sc>(c));
	if (r.chance(1, 10)) v[1] = v[0];
	while (v.size() > 1) { size_t i = r.below(v.size() - 1); if (v[i].sc.Size() * v[i + 1].sc.Size() > 3000) { v.pop_back(); continue; } std::vector<Trace> before; Glued<Sc> g = join(c, v[i], v[i + 1]); v[i] = g; v.erase(v.begin() + i + 1); }
	c.note(v[0].d); compare(v[0].sc, v[0].parts, v[0].shift, v[0].d, 3000);
	Sc copy(v[0].sc); compare(copy, v[0].parts, v[0].shift, "copy of " + v[0].d, 200);
}
VTESTW(scanner, 3) { glue<Pire::Scanner>(c); }
VTESTW(nomask, 2) { glue<Pire::ScannerNoMask>(c); }
VTEST(nonreloc) { glue<Pire::NonrelocScanner>(c); }
VTEST(nonreloc_nomask) { glue<Pire::NonrelocScannerNoMask>(c); }
// operands are left as they were, whatever the order of gluing; results do not depend on nesting
VTEST(operands) {
	typedef Pire::Scanner Sc; Rng& r = c.rng; std::string d; Sc a = make(r, d, (Sc*)0), b = make(r, d, (Sc*)0), x = make(r, d, (Sc*)0); c.note(d); Trace ta = trace(a, 1), tb = trace(b, 1), tx = trace(x, 1);
	if (product(a, b) > 1500 || product(b, x) > 1500) return; Sc l1 = Sc::Glue(a, b), r1 = Sc::Glue(b, x); if (product(l1, x) > 3000) return; Sc l = Sc::Glue(l1, x), rr = Sc::Glue(a, r1); SAME(trace(a, 1), ta, "first operand"); SAME(trace(b, 1), tb, "second operand"); SAME(trace(x, 1), tx, "third operand");
	CHECK(l.RegexpsCount() == rr.RegexpsCount(), "regexps counts differ by nesting"); std::vector<std::shared_ptr<Sc> > p(1, std::make_shared<Sc>(rr)); compare(l, p, std::vector<size_t>(1, 0), "nesting order " + d, 3000);
}
// a product near the size limit, with many states falling into the same places of the lookup table
VTESTN(big, 12) {
	typedef Pire::ScannerNoMask Sc; Rng& r = c.rng; int m = r.range(200, 420), n = r.range(200, 420); Fsm f, g; f.Resize(m); g.Resize(n); f.ClearFinal(); g.ClearFinal(); for (int i = 0; i < m; ++i) f.Connect(i, (i + 1) % m, 'a'); for (int i = 0; i < n; ++i) g.Connect(i, (i + 1) % n, 'a'); f.SetFinal(m - 1, true); g.SetFinal(n - 1, true); f.Determine(); g.Determine(); c.note(str(m) + "x" + str(n));
	Sc a(f), b(g); long per = (long)m * n / std::__gcd((long)m, (long)n); Sc s = Sc::Glue(a, b, r.chance(1, 2) ? 1000000 : 0); bool must = per + 2 < 79990, mustnot = per > 262200; if (s.Empty()) { CHECK(!must, "Glue() failed for " << per << " states"); return; } CHECK(!mustnot, "glued more states than the table has");
	size_t q; s.Initialize(q); for (long i = 0; i < 3 * (long)m * n && i < 200000; ++i) { bool fa = i % m == m - 1, fb = i % n == n - 1; auto acc = s.AcceptedRegexps(q); std::vector<size_t> got(acc.first, acc.second), want; if (fa) want.push_back(0); if (fb) want.push_back(1); CHECK(got == want && (bool)s.Final(q) == (fa || fb), "after " << i << " letters"); s.Next(q, 'a'); }
}
VMAIN
