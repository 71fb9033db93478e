// Ranges cut into groups of bits against a list of bits (C25).
// -DELEMENT=type -DELEMENT_NAME="..." -DWIDTHS=bits,... [-DFEW_RANGES]
#include "rt.hpp"
#include <sys/mman.h>
#include <cthash/encoding/chunk-of-bits.hpp>
#include <deque>
#include <forward_list>
#include <list>
#include <numeric>
#include <ranges>
#include <span>
using namespace rt;

using T = ELEMENT;
static Report rep;
static uint64_t seed;
static unsigned random_cases;
constexpr unsigned InBits = sizeof(T) * 8;

struct Group { uint64_t value; unsigned missing; bool padding; bool operator==(const Group &) const = default; };

template <typename U> static uint64_t bits_of(U v) {
	if constexpr (std::is_enum_v<U>) return static_cast<uint64_t>(v);
	else return static_cast<uint64_t>(static_cast<std::make_unsigned_t<U>>(v));
}

static std::vector<Group> model(const std::vector<T> & in, unsigned bits, bool padded) {
	std::vector<bool> b;
	for (T v : in) for (unsigned i = InBits; i-- > 0;) b.push_back((bits_of(v) >> i) & 1u);
	std::vector<Group> out;
	const size_t n = b.size();
	for (size_t o = 0; o < n; o += bits) {
		Group g{0, 0, false};
		for (size_t i = o; i < o + bits; ++i) g.value = g.value << 1 | uint64_t(i < n && b[i]);
		if (o + bits > n) g.missing = static_cast<unsigned>(o + bits - n);
		out.push_back(g);
	}
	if (padded) while (out.size() * bits % std::lcm(bits, InBits)) out.push_back({0, bits, true});
	return out;
}
static std::string show(const std::vector<T> & v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; ++i) { char x[24]; snprintf(x, sizeof x, "%s%" PRIx64, i ? "," : "", bits_of(v[i])); s += x; } return s + " (" + std::to_string(v.size()) + ")"; }

template <size_t Bits, bool Pad> struct Check {
	const std::vector<T> & in;
	std::vector<Group> want;
	const char * how = "";
	void viol(const char * what, const std::string & d) {
		char k[160]; snprintf(k, sizeof k, "chunk_of_bits<%zu,%s> of %s %s:%s", Bits, Pad ? "padded" : "exact", ELEMENT_NAME, how, what);
		rep.viol(k, "%s input=%s", d.c_str(), show(in).c_str());
	}
	template <typename V> void walk(V & v, const char * h) {
		how = h;
		size_t i = 0;
		const size_t limit = want.size() + 200;
		for (auto it = v.begin(); it != v.end(); ++it, ++i) {
			if (i >= limit) { viol("endless", std::to_string(i)); return; }
			const auto r = *it;
			if (i >= want.size()) continue;
			const Group g{uint64_t(r.value), unsigned(r.missing_bits), r.is_padding()};
			if (g.value != want[i].value) { viol("value", "group " + std::to_string(i) + " got " + std::to_string(g.value) + " expected " + std::to_string(want[i].value)); return; }
			if (g.missing != want[i].missing) { viol("missing_bits", "group " + std::to_string(i) + " got " + std::to_string(g.missing) + " expected " + std::to_string(want[i].missing)); return; }
			if (g.padding != want[i].padding) { viol("is_padding", "group " + std::to_string(i) + " got " + std::to_string(g.padding)); return; }
		}
		if (i != want.size()) viol("groups", "got " + std::to_string(i) + " expected " + std::to_string(want.size()));
		if constexpr (requires { v.size(); }) if (v.size() != want.size()) viol("size", "got " + std::to_string(v.size()) + " expected " + std::to_string(want.size()));
		rep.count("groups", i);
	}
	void run(unsigned which) {
		want = model(in, Bits, Pad);
		const auto act = cthash::chunk_of_bits<Bits, Pad>;
		{ auto v = in | act; walk(v, "const vector"); const auto & c = v; walk(c, "const vector, const view"); }
#ifdef FEW_RANGES
		auto v = std::span<const T>(in) | act; walk(v, "span");
#else
		switch (which % 5) {
			case 0: { auto v = std::span<const T>(in) | act; walk(v, "span"); break; }
			case 1: { std::deque<T> d(in.begin(), in.end()); auto v = d | act; walk(v, "deque"); walk(v, "deque, again"); break; }
			case 2: { std::list<T> d(in.begin(), in.end()); auto v = d | act; walk(v, "list"); break; }
			case 3: { std::forward_list<T> d(in.begin(), in.end()); auto v = d | act; walk(v, "forward_list"); break; }
			case 4: { auto v = std::vector<T>(in) | act; walk(v, "temporary vector"); auto w = v; walk(w, "temporary vector, copied view"); break; }
		}
#endif
		rep.cas(key(Bits, Pad, in.size(), hstr(show(in)), which % 5), !in.empty());
	}
};


static void * address_space = nullptr;
template <size_t Bits, bool Pad> static void width() {
	if constexpr (std::lcm(Bits, size_t(InBits)) <= 64) {
		auto mk = [](uint64_t x) { return static_cast<T>(static_cast<std::conditional_t<sizeof(T) == 1, uint8_t, std::conditional_t<sizeof(T) == 2, uint16_t, std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>>>>(x)); };
		unsigned w = 0;
		auto one = [&](const std::vector<T> & v) { Check<Bits, Pad>{v, {}}.run(w++); };
		// every length up to several common multiples
		for (size_t n = 0; n <= 40; ++n)
			for (unsigned pat = 0; pat < 5; ++pat) {
				Rng g(key(seed, n, pat, Bits));
				std::vector<T> v(n);
				for (size_t i = 0; i < n; ++i) v[i] = mk(pat == 0 ? 0 : pat == 1 ? ~0ull : pat == 2 ? 0x8000000000000000ull >> (64 - InBits) : pat == 3 ? 1 : g.next());
				one(v);
				if (n == 3 && pat == 4 && Bits == 6) { auto m = model(v, Bits, Pad); std::string s; for (auto & x : m) s += std::to_string(x.value) + "/" + std::to_string(x.missing) + " "; rep.sample("%s cut into %zu bits%s: %s-> %s", ELEMENT_NAME, Bits, Pad ? " padded" : "", show(v).c_str(), s.c_str()); }
			}
		// one bit set anywhere
		const size_t n = std::max<size_t>(2, 2 * std::lcm(Bits, size_t(InBits)) / InBits + 1);
		for (size_t b = 0; b < n * InBits; ++b) { std::vector<T> v(n); v[b / InBits] = mk(uint64_t(1) << (InBits - 1 - b % InBits)); one(v); }
		// all values of one element, all values of its last byte
		for (unsigned x = 0; x < 256; ++x) { one({mk(x)}); one({mk(uint64_t(x) << (InBits - 8)), mk(x)}); }
		// the size reported for ranges far larger than can be walked (they are not touched)
		for (uint64_t big : {uint64_t(1) << 28, (uint64_t(1) << 29) + 1, (uint64_t(1) << 31) + 5, (uint64_t(1) << 32) - 1, uint64_t(1) << 32, (uint64_t(1) << 32) + 13, (uint64_t(1) << 35) + 7}) {
			const std::span<const T> sp(static_cast<const T *>(address_space), big);
			const auto v = sp | cthash::chunk_of_bits<Bits, Pad>;
			const uint64_t common = std::lcm(Bits, size_t(InBits)), in_cap = common / InBits, out_cap = common / Bits;
			const uint64_t expected = Pad ? (big + in_cap - 1) / in_cap * out_cap : (big * InBits + Bits - 1) / Bits;
			if (v.size() != expected) rep.viol(std::string(ELEMENT_NAME) + ":size of a huge range", "%zu bits%s, %" PRIu64 " elements: got %zu expected %" PRIu64, Bits, Pad ? " padded" : "", big, static_cast<size_t>(v.size()), expected);
			rep.cas(key(Bits, Pad, big, 1), true);
		}
		Rng g(key(seed, Bits, Pad, InBits));
		for (unsigned i = 0; i < random_cases; ++i) {
			std::vector<T> v(g.below(i % 20 == 0 ? 3000 : 80));
			for (auto & x : v) x = mk(g.chance(1, 6) ? 0 : g.next());
			one(v);
		}
	}
}

int main(int argc, char ** argv) {
	Args a(argc, argv);
	seed = a.num("seed", 1); random_cases = static_cast<unsigned>(a.num("random", 100));
	address_space = mmap(nullptr, ((uint64_t(1) << 35) + 64) * sizeof(T), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (address_space == MAP_FAILED) { printf("no address space\n"); return 3; }
	[&]<size_t... B>(std::index_sequence<B...>) { ((width<B, false>(), width<B, true>()), ...); }(std::index_sequence<WIDTHS>());
	return rep.done();
}
