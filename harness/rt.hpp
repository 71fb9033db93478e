// Reporting protocol, random numbers and message contents shared by all workloads.
#pragma once
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace rt {

inline uint64_t mix(uint64_t z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed): s(mix(seed ^ 0x5bf03635u)) { }
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	uint64_t in(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
inline uint64_t hstr(std::string_view s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
template <typename... T> uint64_t key(T... v) { uint64_t h = 77; ((h = mix(h ^ static_cast<uint64_t>(v))), ...); return h; }

struct Report {
	uint64_t evals = 0, viols = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, uint64_t> counters;
	unsigned samples = 0;
	std::map<std::string, unsigned> perkey;

	void cas(uint64_t k, bool nontrivial = true) { ++evals; if (nontrivial) distinct.insert(k); }
	void count(const std::string & n, uint64_t v = 1) { counters[n] += v; }
	void sample(const char * fmt, ...) __attribute__((format(printf, 2, 3))) {
		if (samples >= 6) return;
		++samples;
		va_list a; va_start(a, fmt);
		printf("S\t"); vprintf(fmt, a); printf("\n");
		va_end(a);
	}
	bool want_sample() const { return samples < 6; }
	// key: what fails (stable identification), then the witness
	void viol(const std::string & k, const char * fmt, ...) __attribute__((format(printf, 3, 4))) {
		++viols;
		if (perkey[k]++ >= 3 || perkey.size() > 40) return;
		va_list a; va_start(a, fmt);
		printf("V\t%s\t", k.c_str()); vprintf(fmt, a); printf("\n"); fflush(stdout);
		va_end(a);
	}
	int done() {
		for (auto & [k, v] : counters) printf("C\t%s\t%" PRIu64 "\n", k.c_str(), v);
		printf("E\t%" PRIu64 "\t%zu\t%" PRIu64 "\nEND\n", evals, distinct.size(), viols);
		fflush(stdout);
		return 0;
	}
};

inline std::string hex(const void * p, size_t n) {
	static const char d[] = "0123456789abcdef";
	std::string s;
	for (size_t i = 0; i < n; ++i) { s += d[static_cast<const uint8_t *>(p)[i] >> 4]; s += d[static_cast<const uint8_t *>(p)[i] & 15]; }
	return s;
}
inline std::string hexs(const void * p, size_t n) { return n <= 40 ? hex(p, n) : hex(p, 32) + "..(" + std::to_string(n) + ")"; }

// message contents
enum Pattern : unsigned { P_RANDOM, P_ZERO, P_FF, P_RAMP, P_HIGH, P_ASCII, P_80, P_SPARSE, P_COUNT };
inline const char * const pattern_names[P_COUNT] = {"random", "zero", "ff", "ramp", "high", "ascii", "0x80", "sparse"};
inline void fill(uint8_t * p, size_t n, unsigned pattern, uint64_t seed) {
	Rng r(key(seed, pattern));
	switch (pattern) {
		case P_ZERO: memset(p, 0, n); return;
		case P_FF: memset(p, 0xff, n); return;
		case P_80: memset(p, 0x80, n); return;
		case P_RAMP: for (size_t i = 0; i < n; ++i) p[i] = static_cast<uint8_t>(i + seed); return;
		case P_HIGH: for (size_t i = 0; i < n; ++i) p[i] = static_cast<uint8_t>(r.next() | 0x80u); return;
		case P_ASCII: for (size_t i = 0; i < n; ++i) p[i] = static_cast<uint8_t>(' ' + r.below(95)); return;
		case P_SPARSE: memset(p, 0, n); for (size_t i = 0; i < n; i += 1 + r.below(60)) p[i] = static_cast<uint8_t>(1u << r.below(8)); return;
		default: {
			size_t i = 0;
			for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); }
			if (i < n) { uint64_t v = r.next(); memcpy(p + i, &v, n - i); }
		}
	}
}
inline std::vector<uint8_t> msg(size_t n, unsigned pattern, uint64_t seed) { std::vector<uint8_t> v(n); if (n) fill(v.data(), n, pattern, seed); return v; }

// arguments: --key=value
struct Args {
	std::map<std::string, std::string> m;
	Args(int argc, char ** argv) {
		for (int i = 1; i < argc; ++i) {
			std::string_view a(argv[i]);
			if (a.substr(0, 2) == "--") a.remove_prefix(2);
			auto e = a.find('=');
			m[std::string(a.substr(0, e))] = e == a.npos ? "1" : std::string(a.substr(e + 1));
		}
		setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	}
	std::string str(const char * k, const char * d) const { auto i = m.find(k); return i == m.end() ? d : i->second; }
	uint64_t num(const char * k, uint64_t d) const { auto i = m.find(k); return i == m.end() ? d : strtoull(i->second.c_str(), nullptr, 0); }
	std::vector<std::string> list(const char * k) const {
		std::vector<std::string> r; std::string s = str(k, "");
		for (size_t b = 0; b < s.size();) { auto e = s.find(',', b); if (e == s.npos) e = s.size(); r.push_back(s.substr(b, e - b)); b = e + 1; }
		return r;
	}
};

} // namespace rt
