// Replay harness core: deterministic cases, indexed by (seed, test, index); a failing case is a failing
// input of the real code. A case may be re-run alone with --only TEST INDEX.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {
typedef uint64_t u64;
struct Rng {
	u64 s;
	explicit Rng(u64 seed): s(seed) {}
	u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below(b - a + 1); }
	bool chance(int num, int den) { return (int)below(den) < num; }
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
struct Fail { std::string msg; };
struct Case {
	Rng rng; u64 idx; std::string desc; bool nontrivial; u64 hash;
	Case(u64 seed, u64 i): rng(seed), idx(i), nontrivial(true), hash(1469598103934665603ull) {}
	void note(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) hash = (hash ^ (unsigned char)s[i]) * 1099511628211ull; if (desc.size() < 400) { if (!desc.empty()) desc += "; "; desc += s; } }
};
typedef void (*Fn)(Case&);
struct Test { const char* name; Fn fn; u64 limit; int weight; };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char* n, Fn f, u64 limit, int weight) { Test t = { n, f, limit, weight }; tests().push_back(t); } };

inline std::string q(const std::string& s) {
	std::string r = "\"";
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c >= 32 && c < 127) r += c;
		else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	}
	return r + "\"";
}
template<class T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }
inline void fail(const std::string& m) { Fail f; f.msg = m; throw f; }

// known findings: (id) named by the check; a failing case that a test attributes to one is reported, not failed
inline std::set<std::string>& known() { static std::set<std::string> k; return k; }
inline bool is_known(const std::string& id) { return known().count(id) != 0; }
inline void report_known(const std::string& id, const std::string& text) {
	static std::set<std::string> done;
	if (done.insert(id).second) { printf("KNOWN %s: %s\n", id.c_str(), text.c_str()); fflush(stdout); }
}
inline std::string json(const std::string& s) {
	std::string r = "\"";
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c >= 32 && c < 127) r += c;
		else { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
	}
	return r + "\"";
}

inline int main_(int argc, char** argv) {
	u64 seed = 1, wk = 0, wn = 1; double seconds = 10; std::string status, only; u64 onlyIdx = 0; std::set<std::string> skip;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
		else if (a == "--seconds") seconds = atof(argv[++i]);
		else if (a == "--status") status = argv[++i];
		else if (a == "--worker") { wk = strtoull(argv[++i], 0, 10); wn = strtoull(argv[++i], 0, 10); }
		else if (a == "--skip") skip.insert(argv[++i]);
		else if (a == "--known") known().insert(argv[++i]);
		else if (a == "--only") { only = argv[++i]; onlyIdx = strtoull(argv[++i], 0, 10); }
		else if (a == "--test") { only = argv[++i]; onlyIdx = ~0ull; }
	}
	char* st = 0;
	if (!status.empty()) {
		int fd = open(status.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd >= 0 && ftruncate(fd, 256) == 0) st = (char*)mmap(0, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	}
	std::vector<Test>& ts = tests();
	std::vector<u64> cnt(ts.size(), 0);
	std::unordered_set<u64> seen;
	std::vector<std::string> samples;
	u64 evals = 0, distinct = 0;
	auto t0 = std::chrono::steady_clock::now();
	bool live = true, timeup = false;
	while (live && !timeup) {
		live = false;
		for (size_t t = 0; t < ts.size() && !timeup; ++t) {
			if (!only.empty() && only != ts[t].name) continue;
			if (skip.count(ts[t].name)) continue;
			for (int w = 0; w < ts[t].weight && !timeup; ++w) {
				u64 idx = cnt[t] * wn + wk;
				if (!only.empty() && onlyIdx != ~0ull) { if (cnt[t]) break; idx = onlyIdx; }
				else if (idx >= ts[t].limit) break;
				++cnt[t];
				live = true;
				if (st) snprintf(st, 256, "%s %llu", ts[t].name, (unsigned long long)idx);
				u64 h = seed * 1000003ull;
				for (const char* p = ts[t].name; *p; ++p) h = (h ^ *p) * 1099511628211ull;
				Case c(h + idx * 0x2545F4914F6CDD1Dull, idx);
				try { ts[t].fn(c); }
				catch (const Fail& f) {
					printf("FAIL %s [%s]\n", f.msg.c_str(), c.desc.c_str()); fflush(stdout); return 1;
				}
				catch (const std::exception& e) {
					printf("FAIL unexpected exception: %s [%s]\n", e.what(), c.desc.c_str()); fflush(stdout); return 1;
				}
				++evals;
				if (c.nontrivial) {
					u64 k = c.hash ^ (t * 0x9e3779b97f4a7c15ull);
					if (c.desc.empty()) k ^= (idx + 1) * 0xff51afd7ed558ccdull;
					if (seen.size() < 4000000 && seen.insert(k).second) ++distinct;
				}
				if (samples.size() < 8 && cnt[t] == 3) samples.push_back(std::string(ts[t].name) + "#" + str(idx) + ": " + c.desc);
				if (onlyIdx == ~0ull || only.empty()) {
					std::chrono::duration<double> d = std::chrono::steady_clock::now() - t0;
					if (d.count() > seconds) timeup = true;
				}
			}
		}
	}
	printf("STAT {\"evaluations\":%llu,\"distinct\":%llu,\"tests\":{", (unsigned long long)evals, (unsigned long long)distinct);
	bool first = true;
	for (size_t t = 0; t < ts.size(); ++t) { printf("%s%s:%llu", first ? "" : ",", json(ts[t].name).c_str(), (unsigned long long)cnt[t]); first = false; }
	printf("},\"samples\":[");
	for (size_t i = 0; i < samples.size(); ++i) printf("%s%s", i ? "," : "", json(samples[i]).c_str());
	printf("]}\n");
	return 0;
}
}
// limit: number of cases after which the (finite) test is exhausted
#define VTEST_(name, limit, weight) static void name(vh::Case&); static vh::Reg reg_##name(#name, name, limit, weight); static void name(vh::Case& c)
#define VTEST(name) VTEST_(name, ~0ull, 1)
#define VTESTW(name, w) VTEST_(name, ~0ull, w)
#define VTESTN(name, limit) VTEST_(name, limit, 1)
#define CHECK(cond, msg) do { if (!(cond)) { std::ostringstream o_; o_ << msg << " (" #cond ")"; vh::fail(o_.str()); } } while (0)
#define EXPECT_THROW(stmt, msg) do { bool thrown_ = false; try { stmt; } catch (const std::exception&) { thrown_ = true; } CHECK(thrown_, msg); } while (0)
#define VMAIN int main(int argc, char** argv) { return vh::main_(argc, argv); }
