#include "scan.h"
using namespace vh;
// the operations against reference constructions, compared by exact language equality
static Nfa all_one(bool marks) { Nfa r; r.resize(2); for (int c = 0; c < (marks ? (int)MaxChar : 256); ++c) if (c != Epsilon) r.edge(0, c, 1); r.fin.insert(1); return r; }
static Nfa word(const std::string& s) { Nfa r; r.resize(s.size() + 1); for (size_t i = 0; i < s.size(); ++i) r.edge(i, (unsigned char)s[i], i + 1); r.fin.insert(s.size()); return r; }
static Nfa special(int c) { Nfa r; r.resize(2); r.edge(0, c, 1); r.fin.insert(1); return r; }
static Nfa eps() { Nfa r; r.fin.insert(0); return r; }
static Nfa prefixes(const Nfa& a) { std::vector<bool> b = backward(a); Nfa r = a; for (int i = 0; i < a.n; ++i) if (b[i]) r.fin.insert(i); return r; }
static Nfa suffixes(const Nfa& a) { std::vector<bool> f = forward(a), b = backward(a); Nfa r = a; int i = r.add(); for (int k = 0; k < a.n; ++k) if (f[k] && b[k]) r.edge(i, Epsilon, k); r.init = i; return r; }
static Nfa power(const Nfa& a, int k) { Nfa r = eps(); while (k--) r = cat(r, a); return r; }
struct Both { Fsm f; Nfa n; bool raw; };
static Nfa look(const Fsm& f, const char* what) { try { return from_fsm(f); } catch (const Fail& x) { fail(std::string(what) + ": " + x.msg); } return Nfa(); }
static Both base(Rng& r) {
	Both b; b.raw = true;
	int k = r.below(10);
	if (k == 0) { b.n = eps(); return b; }
	if (k == 1) { b.f = Fsm::MakeFalse(); b.n = Nfa(); return b; }
	if (k == 2) { std::string p = random_pattern(r); b.f = lex(p); b.n = look(b.f, "parse"); return b; }
	GenOpt o; o.maxStates = 4; o.letters = 3; b.n = random_nfa(r, o); b.f = to_fsm(b.n);
	return b;
}
static void prep(Rng& r, Both& b) {
	switch (r.below(6)) { case 0: b.f.Canonize(); b.raw = false; break; case 1: b.f.Determine(); b.raw = false; break; case 2: b.f.RemoveEpsilons(); b.raw = false; break; default: break; }
}
struct Snap {
	Fsm::TransitionTable t; size_t i; std::set<size_t> fin; bool det, alt; size_t letters; bool sp;
	Snap(const Fsm& f): t(f.m_transitions), i(f.initial), fin(f.m_final.begin(), f.m_final.end()), det(f.determined), alt(f.isAlternative), letters(f.letters.Size()), sp(f.m_sparsed) {}
	bool operator == (const Snap& o) const { return t == o.t && i == o.i && fin == o.fin && det == o.det && alt == o.alt && letters == o.letters && sp == o.sp; }
};
static void verify(Rng& r, const Both& b, const std::string& what) {
	check_language(look(b.f, what.c_str()), b.n, what);
	if (r.chance(1, 3)) { Fsm g(b.f); g.Canonize(); check_language(look(g, what.c_str()), b.n, what + ", determined and minimized"); }
}
static bool apply1(Case& c, Both& a) {
	Rng& r = c.rng; std::string what;
	try { switch (r.below(a.raw ? 16 : 9)) {
	case 0: what = "Iterate"; a.n = star(a.n); a.f.Iterate(); break;
	case 1: what = "Complement"; a.n = compl_(a.n); a.f.Complement(); a.raw = true; break;
	case 2: { int k = r.below(4); what = "repeat " + str(k); a.n = power(a.n, k); a.f *= k; if (!k) a.raw = true; break; }
	case 3: what = "Surround"; a.n = cat(cat(any_star(), a.n), any_star()); a.f.Surround(); break;
	case 4: what = "Reverse"; a.n = rev(a.n); a.f.Reverse(); break;
	case 5: what = "MakePrefix"; a.n = prefixes(a.n); a.f.MakePrefix(); break;
	case 6: what = "MakeSuffix"; a.n = suffixes(a.n); a.f.MakeSuffix(); break;
	case 7: what = "PrependAnything"; a.n = cat(any_star(), a.n); a.f.PrependAnything(); break;
	case 8: what = "AppendAnything"; a.n = cat(a.n, any_star()); a.f.AppendAnything(); break;
	case 9: what = "AppendDot"; a.n = cat(a.n, all_one(false)); a.f.AppendDot(); break;
	case 10: { char ch = "ab\xff\0z"[r.below(5)]; what = "Append " + show(Word(1, (unsigned char)ch)); a.n = cat(a.n, word(std::string(1, ch))); a.f.Append(ch); break; }
	case 11: { std::string s = random_text(r, r.below(4), {}); what = "Append string"; a.n = cat(a.n, word(s)); a.f.Append(s); break; }
	case 12: { int ch = r.chance(1, 2) ? BeginMark : EndMark; what = "AppendSpecial"; a.n = cat(a.n, special(ch)); a.f.AppendSpecial(ch); break; }
	case 13: { std::vector<std::string> v; Nfa u; u = Nfa(); int k = r.below(4); for (int i = 0; i < k; ++i) { std::string s; int l = r.range(1, 4); for (int j = 0; j < l; ++j) s += "ab\xff"[r.below(3)]; v.push_back(s); u = i ? alt(u, word(s)) : word(s); what += "'" + s + "' "; }
		what = "AppendStrings " + what; a.n = cat(a.n, u); a.f.AppendStrings(v); break; }
	case 14: what = "RemoveDeadEnds"; a.f.RemoveDeadEnds(); break;
	default: what = "copy"; { Fsm t(a.f); a.f = t; } break;
	} } catch (const std::length_error&) { return false; }
	c.note(what);
	verify(r, a, what);
	return a.n.n < 60;
}
static bool apply2(Case& c, Both& a, Both& b) {
	Rng& r = c.rng; std::string what; Snap s(b.f);
	int k = r.below(6);
	try { switch (k) {
	case 0: what = "+="; a.n = cat(a.n, b.n); a.f += b.f; break;
	case 1: what = "|="; a.n = alt(a.n, b.n); a.f |= b.f; break;
	case 2: what = "&="; a.n = conj(a.n, b.n); a.f &= b.f; a.raw = true; break;
	default: {
		Snap s1(a.f); Fsm g; const Fsm &x = a.f, &y = b.f; Nfa n;
		if (k == 3) { what = "a+b"; n = cat(a.n, b.n); g = x + y; } else if (k == 4) { what = "a|b"; n = alt(a.n, b.n); g = x | y; } else { what = "a&b"; n = conj(a.n, b.n); g = x & y; }
		CHECK(Snap(a.f) == s1, what << " changes its left operand");
		a.f = g; a.n = n; if (k == 5) a.raw = true; break; }
	} } catch (const std::length_error&) { return false; }
	c.note(what);
	CHECK(Snap(b.f) == s, what << " changes its right operand");
	verify(r, a, what);
	return a.n.n < 60;
}
VTESTW(chain, 3) {
	Rng& r = c.rng; Both a = base(r); c.note(a.n.dump()); if (r.chance(1, 3)) { prep(r, a); if (!a.raw) c.note("prepared"); }
	verify(r, a, "start");
	int k = r.range(1, 4);
	for (int i = 0; i < k; ++i) {
		bool ok;
		if (r.chance(1, 2)) { Both b = base(r); if (r.chance(1, 3)) prep(r, b); if (r.chance(1, 3)) { c.note("rhs " + b.n.dump()); apply1(c, b); } else c.note("rhs " + b.n.dump()); ok = apply2(c, a, b); }
		else ok = apply1(c, a);
		if (!ok) return;
		if (r.chance(1, 8)) { prep(r, a); c.note("prepared"); verify(r, a, "prepared"); }
	}
}
VTEST(itself) {
	Rng& r = c.rng; Both a = base(r); if (r.chance(1, 4)) prep(r, a); if (r.chance(1, 3)) { Both b = base(r); a.f |= b.f; a.n = alt(a.n, b.n); }
	c.note(a.n.dump()); std::string what;
	switch (r.below(3)) { case 0: what = "a += a"; a.n = cat(a.n, a.n); a.f += a.f; break; case 1: what = "a |= a"; a.f |= a.f; break; default: what = "a &= a"; a.f &= a.f; break; }
	c.note(what); verify(r, a, what);
}
static Both other(Rng& r) { Both b = base(r); if (r.chance(1, 2)) { Both x = base(r); b.f |= x.f; b.n = alt(b.n, x.n); } return b; }
VTEST(alternatives) {
	Rng& r = c.rng; Both a = other(r), b = other(r), d = other(r); c.note(a.n.dump()); c.note(b.n.dump());
	Snap s(b.f); a.f |= b.f; a.n = alt(a.n, b.n); CHECK(Snap(b.f) == s, "|= changes its right operand"); verify(r, a, "a|b");
	if (r.chance(1, 2)) { a.f |= d.f; a.n = alt(a.n, d.n); } else { d.f |= a.f; d.n = alt(d.n, a.n); a = d; }
	verify(r, a, "three alternatives");
}
VMAIN
