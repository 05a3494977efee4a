// Reference automata and generators. Nothing here uses the code under test except to build and read Fsms.
#pragma once
#include "vh.h"
#define private public
#define protected public
#include <pire/pire.h>
#include <pire/extra.h>
#include <pire/determine.h>
#undef private
#undef protected

namespace vh {
using Pire::Fsm; using Pire::Char; using Pire::Epsilon; using Pire::BeginMark; using Pire::EndMark; using Pire::MaxChar;
typedef std::vector<Char> Word;
typedef std::set<int> Set;

inline std::string show(const Word& w) {
	std::string r;
	for (size_t i = 0; i < w.size(); ++i) r += w[i] == BeginMark ? "<B>" : w[i] == EndMark ? "<E>" : w[i] >= 256 ? "<" + str(w[i]) + ">" : w[i] > 32 && w[i] < 127 ? std::string(1, (char)w[i]) : "\\" + str(w[i]);
	return r;
}

struct Nfa {
	int n, init; Set fin; std::vector< std::map<int, Set> > tr;
	Nfa(): n(1), init(0), tr(1) {}
	void resize(int k) { n = k; tr.resize(k); }
	int add() { resize(n + 1); return n - 1; }
	void edge(int a, int c, int b) { tr[a][c].insert(b); }
	Set close(Set s) const {
		std::vector<int> st(s.begin(), s.end());
		while (!st.empty()) { int x = st.back(); st.pop_back(); std::map<int, Set>::const_iterator it = tr[x].find(Epsilon); if (it == tr[x].end()) continue;
			for (Set::const_iterator y = it->second.begin(); y != it->second.end(); ++y) if (s.insert(*y).second) st.push_back(*y); }
		return s;
	}
	Set start() const { Set s; s.insert(init); return close(s); }
	Set step(const Set& s, int c) const {
		Set r;
		for (Set::const_iterator x = s.begin(); x != s.end(); ++x) { std::map<int, Set>::const_iterator it = tr[*x].find(c); if (it != tr[*x].end()) r.insert(it->second.begin(), it->second.end()); }
		return close(r);
	}
	bool fins(const Set& s) const { for (Set::const_iterator x = s.begin(); x != s.end(); ++x) if (fin.count(*x)) return true; return false; }
	bool accepts(const Word& w) const { Set s = start(); for (size_t i = 0; i < w.size(); ++i) s = step(s, w[i]); return fins(s); }
	std::string dump() const {
		std::ostringstream o; o << "n=" << n << " init=" << init << " fin={"; for (Set::const_iterator i = fin.begin(); i != fin.end(); ++i) o << *i << " "; o << "}";
		for (int i = 0; i < n; ++i) {
			std::map<Set, int> cnt; for (std::map<int, Set>::const_iterator t = tr[i].begin(); t != tr[i].end(); ++t) ++cnt[t->second];
			std::set<Set> big; for (std::map<Set, int>::iterator k = cnt.begin(); k != cnt.end(); ++k) if (k->second > 20) big.insert(k->first);
			for (std::set<Set>::iterator k = big.begin(); k != big.end(); ++k) for (Set::const_iterator d = k->begin(); d != k->end(); ++d) o << " " << i << "-rest>" << *d;
			for (std::map<int, Set>::const_iterator t = tr[i].begin(); t != tr[i].end(); ++t) if (!big.count(t->second)) for (Set::const_iterator d = t->second.begin(); d != t->second.end(); ++d) {
				o << " " << i << "-" << show(Word(1, t->first)) << ">" << *d; if (o.tellp() > 380) { o << "..."; return o.str(); } }
		}
		return o.str();
	}
};
inline bool is_symbol(int c) { return c >= 0 && c < (int)MaxChar && c != Epsilon; }

inline Fsm to_fsm(const Nfa& a) {
	Fsm f; f.Resize(a.n); f.ClearFinal(); f.SetInitial(a.init);
	for (Set::const_iterator i = a.fin.begin(); i != a.fin.end(); ++i) f.SetFinal(*i, true);
	for (int s = 0; s < a.n; ++s) for (std::map<int, Set>::const_iterator t = a.tr[s].begin(); t != a.tr[s].end(); ++t) for (Set::const_iterator d = t->second.begin(); d != t->second.end(); ++d) f.Connect(s, *d, t->first);
	return f;
}
// what the Fsm's public observers say
inline Nfa from_fsm(const Fsm& f) {
	Nfa a; a.resize(f.Size()); a.init = f.Initial();
	for (auto i : f.Finals()) a.fin.insert(i);
	for (size_t s = 0; s < f.Size(); ++s) for (int c = 0; c < (int)MaxChar; ++c) for (auto d : f.Destinations(s, c)) {
		if (d >= f.Size()) fail("transition to a state that does not exist");
		a.edge(s, c, d);
	}
	return a;
}

// representatives of the symbol classes of several automata (symbols with the same behaviour in all; by 128-bit signature)
inline std::vector<int> reps(const std::vector<const Nfa*>& as, bool marks = true, std::map<int, std::vector<int> >* members = 0) {
	std::vector< std::pair<u64, u64> > h(MaxChar, std::make_pair(1, 2));
	for (size_t k = 0; k < as.size(); ++k) for (int s = 0; s < as[k]->n; ++s) for (std::map<int, Set>::const_iterator t = as[k]->tr[s].begin(); t != as[k]->tr[s].end(); ++t) {
		if (t->second.empty() || t->first < 0 || t->first >= (int)MaxChar) continue;
		std::pair<u64, u64>& x = h[t->first];
		u64 base = k * 100003 + s;
		for (Set::const_iterator d = t->second.begin(); d != t->second.end(); ++d) { u64 v = base * 1000003 + *d + 1; x.first = Rng(x.first ^ v).next(); x.second = Rng(x.second + v * 0x9e3779b97f4a7c15ull).next(); }
	}
	std::map< std::pair<u64, u64>, int > cls; std::vector<int> r;
	for (int c = 0; c < (int)MaxChar; ++c) {
		if (c == Epsilon) continue;
		if (!marks && c >= 256) continue;
		std::pair<std::map< std::pair<u64, u64>, int >::iterator, bool> ins = cls.insert(std::make_pair(h[c], c));
		if (ins.second) r.push_back(c);
		if (members) (*members)[ins.first->second].push_back(c);
	}
	return r;
}
// the same automaton over symbol classes, sets of states as bit strings
struct Bits {
	typedef std::vector<u64> B; int n, w; std::vector<B> eps; std::vector< std::vector<B> > to; B fin, st; bool started;
	static void set(B& b, int i) { b[i >> 6] |= 1ull << (i & 63); }
	Bits(const Nfa& a, const std::vector<int>& alpha): n(a.n), w((a.n + 63) / 64), eps(a.n), to(a.n, std::vector<B>(alpha.size())), fin(w), st(w) {
		for (int s = 0; s < n; ++s) { Set q; q.insert(s); q = a.close(q); eps[s].resize(w); for (Set::const_iterator x = q.begin(); x != q.end(); ++x) set(eps[s], *x); }
		for (int s = 0; s < n; ++s) for (size_t k = 0; k < alpha.size(); ++k) { std::map<int, Set>::const_iterator t = a.tr[s].find(alpha[k]); if (t == a.tr[s].end() || t->second.empty()) continue;
			to[s][k].resize(w); for (Set::const_iterator d = t->second.begin(); d != t->second.end(); ++d) for (int i = 0; i < w; ++i) to[s][k][i] |= eps[*d][i]; }
		for (Set::const_iterator f = a.fin.begin(); f != a.fin.end(); ++f) set(fin, *f);
		st = eps[a.init];
	}
	B step(const B& b, size_t k) const { B r(w); for (int i = 0; i < w; ++i) for (u64 m = b[i]; m; m &= m - 1) { const B& t = to[i * 64 + __builtin_ctzll(m)][k]; for (size_t j = 0; j < t.size(); ++j) r[j] |= t[j]; } return r; }
	bool final(const B& b) const { for (int i = 0; i < w; ++i) if (b[i] & fin[i]) return true; return false; }
};
// exact language comparison by the subset construction; returns true if equal, else a shortest distinguishing word
inline bool same_language(const Nfa& a, const Nfa& b, Word& cex, bool& complete, bool marks = true, size_t limit = 3000) {
	std::vector<const Nfa*> as; as.push_back(&a); as.push_back(&b);
	std::vector<int> alpha = reps(as, marks);
	Bits x(a, alpha), y(b, alpha);
	typedef std::pair<Bits::B, Bits::B> P; std::map<P, int> seen; std::vector<P> qq; std::vector< std::pair<int, int> > from;
	P p0(x.st, y.st); seen[p0] = 0; qq.push_back(p0); from.push_back(std::make_pair(-1, 0));
	complete = true;
	for (size_t i = 0; i < qq.size(); ++i) {
		if (x.final(qq[i].first) != y.final(qq[i].second)) {
			cex.clear(); for (int k = i; from[k].first >= 0; k = from[k].first) cex.push_back(alpha[from[k].second]); std::reverse(cex.begin(), cex.end()); return false;
		}
		if (qq.size() > limit) { complete = false; continue; }
		for (size_t k = 0; k < alpha.size(); ++k) {
			P nx(x.step(qq[i].first, k), y.step(qq[i].second, k));
			if (seen.insert(std::make_pair(nx, 0)).second) { qq.push_back(nx); from.push_back(std::make_pair((int)i, (int)k)); }
		}
	}
	return true;
}
inline void check_language(const Nfa& got, const Nfa& want, const std::string& what, bool marks = true) {
	Word w; bool complete;
	if (!same_language(got, want, w, complete, marks)) fail(what + ": word '" + show(w) + "' is " + (got.accepts(w) ? "accepted but should not be" : "rejected but should be accepted"));
}

// deterministic complete form
inline Nfa det(const Nfa& a) {
	std::map<int, std::vector<int> > members; std::vector<const Nfa*> as(1, &a); std::vector<int> alpha = reps(as, true, &members); Bits x(a, alpha);
	Nfa r; std::map<Bits::B, int> id; std::vector<Bits::B> qq; id[x.st] = 0; qq.push_back(x.st); r.resize(1); r.init = 0;
	for (size_t i = 0; i < qq.size(); ++i) {
		if (x.final(qq[i])) r.fin.insert(i);
		for (size_t k = 0; k < alpha.size(); ++k) {
			Bits::B nx = x.step(qq[i], k); auto ins = id.insert(std::make_pair(nx, (int)qq.size())); if (ins.second) { qq.push_back(nx); r.resize(qq.size()); }
			for (size_t m = 0; m < members[alpha[k]].size(); ++m) r.edge(i, members[alpha[k]][m], ins.first->second);
		}
		if (qq.size() > 400) throw std::length_error("reference automaton too big");
	}
	return r;
}
inline int import(Nfa& a, const Nfa& b) { int off = a.n; a.resize(a.n + b.n); for (int s = 0; s < b.n; ++s) for (auto& t : b.tr[s]) for (int d : t.second) a.edge(off + s, t.first, off + d); return off; }
inline Nfa cat(const Nfa& a, const Nfa& b) { Nfa r = a; int o = import(r, b); for (int f : a.fin) r.edge(f, Epsilon, o + b.init); r.fin.clear(); for (int f : b.fin) r.fin.insert(o + f); return r; }
inline Nfa alt(const Nfa& a, const Nfa& b) { Nfa r = a; int o = import(r, b); int i = r.add(); r.edge(i, Epsilon, a.init); r.edge(i, Epsilon, o + b.init); r.init = i; for (int f : b.fin) r.fin.insert(o + f); return r; }
inline Nfa star(const Nfa& a) { Nfa r = a; int i = r.add(); r.edge(i, Epsilon, a.init); for (int f : a.fin) r.edge(f, Epsilon, i); r.fin.clear(); r.fin.insert(i); r.init = i; return r; }
inline Nfa compl_(const Nfa& a) { Nfa r = det(a); Set f; for (int i = 0; i < r.n; ++i) if (!r.fin.count(i)) f.insert(i); r.fin = f; return r; }
inline Nfa conj(const Nfa& a0, const Nfa& b0) {
	Nfa a = det(a0), b = det(b0), r; r.resize(a.n * b.n); r.init = a.init * b.n + b.init;
	for (int x = 0; x < a.n; ++x) for (int y = 0; y < b.n; ++y) { if (a.fin.count(x) && b.fin.count(y)) r.fin.insert(x * b.n + y);
		for (auto& t : a.tr[x]) { auto it = b.tr[y].find(t.first); if (it == b.tr[y].end()) continue; for (int d : t.second) for (int e : it->second) r.edge(x * b.n + y, t.first, d * b.n + e); } }
	return r;
}
inline Nfa rev(const Nfa& a) { Nfa r; r.resize(a.n + 1); for (int s = 0; s < a.n; ++s) for (auto& t : a.tr[s]) for (int d : t.second) r.edge(d, t.first, s); r.init = a.n; for (int f : a.fin) r.edge(a.n, Epsilon, f); r.fin.insert(a.init); return r; }
inline std::vector<bool> forward(const Nfa& a) { std::vector<bool> v(a.n, false); std::vector<int> st(1, a.init); v[a.init] = true; while (!st.empty()) { int x = st.back(); st.pop_back(); for (auto& t : a.tr[x]) for (int d : t.second) if (!v[d]) { v[d] = true; st.push_back(d); } } return v; }
inline std::vector<bool> backward(const Nfa& a) { std::vector<bool> v(a.n, false); bool ch = true; for (int f : a.fin) v[f] = true; while (ch) { ch = false; for (int x = 0; x < a.n; ++x) if (!v[x]) for (auto& t : a.tr[x]) for (int d : t.second) if (v[d] && !v[x]) { v[x] = true; ch = true; } } return v; }
inline Nfa any_star() { Nfa r; for (int c = 0; c < (int)MaxChar; ++c) if (c != Epsilon) r.edge(0, c, 0); r.fin.insert(0); return r; }

struct GenOpt { int maxStates = 5; int letters = 4; bool eps = true, marks = true; int density = 5; };
inline std::vector<int> alphabet(Rng& r, const GenOpt& o) {
	static const int pool[] = { 'a', 'b', 'c', 0, 255, 128, 127, 1, 2, 0x80, 'z', ' ' };
	std::vector<int> v; int k = r.range(1, o.letters);
	for (int i = 0; i < k; ++i) v.push_back(r.chance(3, 4) ? pool[i % 3] : r.chance(1, 2) ? pool[r.below(12)] : (int)r.below(256));
	if (o.marks && r.chance(1, 3)) v.push_back(BeginMark);
	if (o.marks && r.chance(1, 3)) v.push_back(EndMark);
	return v;
}
inline Nfa random_nfa(Rng& r, const GenOpt& o = GenOpt()) {
	Nfa a; a.resize(r.range(1, o.maxStates)); std::vector<int> al = alphabet(r, o);
	a.init = r.chance(2, 3) ? 0 : r.below(a.n);
	int e = r.below(a.n * o.density / 2 + 1) + (a.n > 1);
	for (int i = 0; i < e; ++i) a.edge(r.below(a.n), o.eps && r.chance(1, 6) ? (int)Epsilon : al[r.below(al.size())], r.below(a.n));
	if (r.chance(1, 3)) { int s = r.below(a.n), d = r.chance(1, 2) ? s : r.below(a.n); for (int c = 0; c < 256; ++c) if (!r.chance(1, 200)) a.edge(s, c, d); if (o.marks && r.chance(1, 2)) for (int c = 256; c < (int)MaxChar; ++c) if (c != Epsilon) a.edge(s, c, d); }
	int f = r.chance(1, 8) ? 0 : r.chance(1, 2) ? 1 : r.range(1, a.n);
	for (int i = 0; i < f; ++i) a.fin.insert(r.below(a.n));
	return a;
}
inline Nfa random_dfa(Rng& r, int maxStates, int letters, bool marks = true, bool complete = true) {
	Nfa a; a.resize(r.range(1, maxStates)); GenOpt o; o.letters = letters; o.marks = marks; std::vector<int> al = alphabet(r, o);
	a.init = r.below(a.n);
	for (int s = 0; s < a.n; ++s) {
		int def = r.chance(1, 2) ? s : (int)r.below(a.n);
		if (complete) for (int c = 0; c < (int)MaxChar; ++c) if (c != Epsilon) { a.tr[s][c].clear(); a.edge(s, c, def); }
		for (size_t i = 0; i < al.size(); ++i) if (complete || r.chance(3, 4)) { a.tr[s][al[i]].clear(); a.edge(s, al[i], r.below(a.n)); }
	}
	int f = r.below(a.n + 1); for (int i = 0; i < f; ++i) a.fin.insert(r.below(a.n));
	return a;
}
// text whose bytes are interesting for the automata
inline std::string random_text(Rng& r, size_t len, const std::vector<int>& al) {
	std::string s; int mode = r.below(4); char fill = al.empty() ? 'x' : (char)al[r.below(al.size())]; if (r.chance(1, 2)) fill = 'x';
	for (size_t i = 0; i < len; ++i) s += mode == 0 ? (char)r.below(256) : mode == 1 ? (r.chance(1, 20) && !al.empty() ? (char)al[r.below(al.size())] : fill) : !al.empty() && r.chance(4, 5) ? (char)al[r.below(al.size())] : fill;
	return s;
}
inline std::vector<int> letters_of(const Nfa& a) { std::set<int> s; for (int i = 0; i < a.n; ++i) { std::map<Set, int> cnt; for (auto& t : a.tr[i]) ++cnt[t.second]; for (auto& t : a.tr[i]) if (t.first < 256 && cnt[t.second] < 8) s.insert(t.first); } return std::vector<int>(s.begin(), s.end()); }
inline Word random_word(Rng& r, const std::vector<int>& reps, int maxlen) { Word w; int n = r.below(maxlen + 1); for (int i = 0; i < n; ++i) w.push_back(reps[r.below(reps.size())]); return w; }

// A copy of a text whose words are the first and last readable words of a page: any read outside the words the
// text touches faults. Bytes of those words that are outside the text are set to `pad`.
class Guarded {
	char* base; size_t total;
public:
	const char *b, *e;
	Guarded(const std::string& t, size_t align, bool atEnd, unsigned char pad) {
		size_t pg = 4096, span = (align + t.size() + 7) / 8 * 8; if (!span) span = 8;
		size_t body = (span + pg - 1) / pg * pg; total = body + 2 * pg;
		base = (char*)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(base + pg, body, PROT_READ | PROT_WRITE);
		memset(base + pg, pad, body);
		char* w = atEnd ? base + pg + body - span : base + pg;
		memcpy(w + align, t.data(), t.size()); b = w + align; e = b + t.size();
	}
	~Guarded() { munmap(base, total); }
private:
	Guarded(const Guarded&); Guarded& operator=(const Guarded&);
};
}
