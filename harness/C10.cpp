#include "scan.h"
using namespace vh;
struct Eq { const std::vector<int>* k; bool operator()(Char a, Char b) const { return (*k)[a] == (*k)[b]; } typedef Char first_argument_type; typedef Char second_argument_type; typedef bool result_type; };
typedef Pire::Partition<Char, Eq> P;
static void check_partition(const P& p, const std::vector<int>& k, const std::set<Char>& in, const std::string& what) {
	std::map<int, std::set<Char> > cls; for (Char x : in) cls[k[x]].insert(x);
	CHECK(p.Size() == cls.size(), what << ": " << p.Size() << " classes instead of " << cls.size()); CHECK(p.Empty() == in.empty(), what << ": Empty()");
	std::set<size_t> idx; std::set<Char> seen;
	for (auto& e : p) {
		CHECK(idx.insert(e.second.first).second, what << ": class number " << e.second.first << " used twice"); CHECK(e.second.first < p.Size(), what << ": class number " << e.second.first << " out of range");
		CHECK(std::find(e.second.second.begin(), e.second.second.end(), e.first) != e.second.second.end(), what << ": representative " << e.first << " is not a member of its class");
		for (Char m : e.second.second) { CHECK(seen.insert(m).second, what << ": character " << m << " is in two classes"); CHECK(k[m] == k[e.first], what << ": " << m << " and " << e.first << " are in one class but not equivalent"); }
	}
	CHECK(seen == in, what << ": the classes do not contain exactly the inserted characters");
	for (Char x = 0; x < MaxChar; ++x) {
		CHECK(p.Contains(x) == (in.count(x) != 0), what << ": Contains(" << x << ")");
		if (!in.count(x)) { EXPECT_THROW(p.Index(x), what << ": Index of a character never inserted"); EXPECT_THROW(p.Klass(x), what << ": Klass of a character never inserted"); continue; }
		Char rep = p.Representative(x); CHECK(in.count(rep) && k[rep] == k[x], what << ": Representative(" << x << ") = " << rep);
		const auto& kl = p.Klass(x); CHECK(std::set<Char>(kl.begin(), kl.end()) == cls[k[x]], what << ": Klass(" << x << ")");
		size_t i = p.Index(x); CHECK(p.Index(rep) == i, what << ": Index of the representative differs"); CHECK(i < p.Size(), what << ": Index out of range");
		for (Char y : cls[k[x]]) CHECK(p.Representative(y) == rep && p.Index(y) == i, what << ": " << x << " and " << y << " are equivalent but have different representatives or numbers");
	}
}
VTEST(partitions) {
	Rng& r = c.rng; int nc = r.range(1, 12); std::vector<int> k(MaxChar); for (auto& x : k) x = r.below(nc); Eq eq = { &k }; P p(eq); std::set<Char> in; int n = r.chance(1, 3) ? (int)MaxChar : r.range(0, 40); c.note(str(nc) + " classes, " + str(n) + " letters");
	std::vector<Char> order; for (int i = 0; i < (int)MaxChar; ++i) order.push_back(i); for (int i = MaxChar - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
	for (int i = 0; i < n; ++i) { p.Append(order[i]); in.insert(order[i]); if (i < 6) c.note(str(order[i]) + ":" + str(k[order[i]])); if (r.chance(1, 20)) check_partition(p, k, in, "Append"); }
	check_partition(p, k, in, "Append");
	P q(p); CHECK(q == p && !(q != p), "copy differs"); check_partition(q, k, in, "copy");
	// a finer relation
	std::vector<int> k2(MaxChar); int m = r.range(1, 4); for (size_t i = 0; i < k2.size(); ++i) k2[i] = k[i] * 8 + r.below(m); Eq eq2 = { &k2 }; p.Split(eq2); check_partition(p, k2, in, "Split");
}
static std::string sig(const Nfa& a, int c) { std::string s; for (int i = 0; i < a.n; ++i) { auto t = a.tr[i].find(c); if (t != a.tr[i].end()) for (int d : t->second) s += str(i) + ">" + str(d) + " "; } return s; }
VTEST(letters) {
	Rng& r = c.rng; GenOpt o; o.letters = 6; Nfa a = r.chance(1, 2) ? random_nfa(r, o) : random_dfa(r, 5, 5); c.note(a.dump());
	Fsm f = to_fsm(a); bool eps = r.chance(1, 3);
	f.Sparse(eps);
	for (Char x = 0; x < MaxChar; ++x) {
		if (x == Epsilon && !eps) { CHECK(!f.Letters().Contains(x), "epsilon is a letter"); continue; }
		CHECK(f.Letters().Contains(x), "letter " << x << " is in no class");
		for (Char y : { (Char)'a', (Char)'b', (Char)0, (Char)255, (Char)BeginMark, (Char)r.below(256) }) CHECK((f.Letters().Index(x) == f.Letters().Index(y)) == (sig(a, x) == sig(a, y)), "letters " << x << " and " << y << " share a class wrongly or not at all");
	}
	check_language(from_fsm(f), a, "Sparse"); f.Unsparse(); check_language(from_fsm(f), a, "Unsparse");
	Fsm g = to_fsm(a); g.Canonize(); Nfa m = from_fsm(g); check_language(m, a, "Canonize");
	for (int i = 0; i < 200; ++i) { Char x = r.below(MaxChar), y = r.below(MaxChar); if (x == Epsilon || y == Epsilon) continue; if (g.Letters().Index(x) == g.Letters().Index(y)) CHECK(sig(m, x) == sig(m, y), "letters " << x << " and " << y << " conflated by Canonize"); }
	// the scanner's letter table
	Pire::Scanner s = g.Compile<Pire::Scanner>(); Pire::SimpleScanner ss = g.Compile<Pire::SimpleScanner>(); (void)ss;
	for (int i = 0; i < 60; ++i) { Char x = r.below(256), y = r.below(256); if (s.Translate(x) == s.Translate(y)) CHECK(sig(m, x) == sig(m, y), "letters " << x << " and " << y << " conflated by the scanner"); }
}
VMAIN
