// Hashing in constant expressions (C09): the compiler evaluates a table of cases, then the program
// evaluates the same cases at run time from data the compiler cannot see, and compares.
// -DHASH=cthash::sha256 -DBLOCK=64 -DCT_SEED=n -DPART=k; -DRUNTIME_ONLY leaves the table empty (to tell a
// compiler refusing constant evaluation from a compiler refusing the file).
#include "rt.hpp"
#include <array>
#include <cthash/cthash.hpp>
#include <cthash/sha2/sha512/t.hpp>
#include <string>
using namespace rt;
#ifndef CASES
#define CASES 24
#endif
#ifndef XOF
#define XOF 0
#endif
#define STR2(x) #x
#define STR(...) STR2(__VA_ARGS__)
using H = HASH;
constexpr size_t B = BLOCK, MAXL = 5 * B + 8;

constexpr uint64_t cmix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
constexpr unsigned char byte_of(uint64_t seed, unsigned pattern, size_t i) {
	const auto r = static_cast<unsigned char>(cmix(seed + i) & 0xffu);
	switch (pattern) { case 0: return r; case 1: return static_cast<unsigned char>(r | 0x80u); case 2: return 0xff; case 3: return 0; default: return static_cast<unsigned char>(' ' + r % 95u); }
}
constexpr size_t DS = [] {
#if XOF
	return size_t{XOF};
#else
	return decltype(std::declval<H &>().final()){}.size();
#endif
}();
struct Case { size_t len, cut1, cut2; unsigned form, pattern, kind; uint64_t seed, hseed; };
struct Result { std::array<unsigned char, DS> d{}; uint64_t size = 0; constexpr bool operator==(const Result &) const = default; };

template <typename V> constexpr void put(Result & r, const V & v) { for (size_t i = 0; i < DS; ++i) r.d[i] = static_cast<unsigned char>(v[i]); }
// feeds the last part of a message through update_and_final
template <typename X> struct Last {
	X & h; Result & r;
	template <typename V> constexpr void update(const V & v) requires requires(X & x) { x.update_and_final(v); } { put(r, h.update_and_final(v)); }
};
constexpr auto finish(H & h) {
#if XOF
	return h.template final<XOF * 8u>();
#else
	return h.final();
#endif
}
template <typename T> struct Typed { T a[MAXL + 1]; };
template <typename T> constexpr Typed<T> typed(const Case & c) { Typed<T> t{}; for (size_t i = 0; i < c.len; ++i) t.a[i] = static_cast<T>(byte_of(c.seed, c.pattern, i)); return t; }

// some hashers take fewer types of container
template <typename X, typename V> constexpr void upd(X & h, const V & v) {
	if constexpr (requires { h.update(v); }) h.update(v);
	else h.update(std::span<const typename V::value_type>(v.data(), v.size()));
}
template <typename Feed, typename X = H> constexpr Result run(const Case & c, Feed && feed) {
	Result r{};
	X h = [&] {
#ifdef SEEDED
		if (c.hseed) return H(static_cast<SEEDED>(c.hseed));
#endif
		return H();
	}();
	feed(h, size_t{0}, c.cut1);
	if (c.kind == 1) { // the original goes another way, its copy continues
		H copy = h;
		feed(h, size_t{0}, c.cut1); (void)finish(h);
		feed(copy, c.cut1, c.cut2 - c.cut1); feed(copy, c.cut2, c.len - c.cut2);
		put(r, finish(copy));
		return r;
	}
	if (c.kind == 2) { // a copy is finished halfway
		H copy(h); Result t{}; put(t, finish(copy));
		r.size = t.d[0];
	}
	feed(h, c.cut1, c.cut2 - c.cut1);
	if constexpr (requires(std::span<const char> s) { h.update_and_final(s); }) {
		if (c.kind >= 4) {
			Last<X> last{h, r};
			feed(last, c.cut2, c.len - c.cut2);
			return r;
		}
	}
	feed(h, c.cut2, c.len - c.cut2);
	if constexpr (requires { h.size(); }) r.size = static_cast<uint64_t>(h.size()) * 256u + r.size;
#if !XOF
	if (c.kind == 3) {
		if constexpr (requires(std::span<std::byte, DS> s) { h.final(s); }) { std::array<std::byte, DS> o{}; h.final(std::span<std::byte, DS>(o)); put(r, o); return r; }
	}
#endif
	put(r, finish(h));
	return r;
}

constexpr Result eval(const Case & c) {
	auto spans = [&](const auto & t) { return run(c, [&](auto & h, size_t o, size_t n) { h.update(std::span(t.a).subspan(o, n)); }); };
	switch (c.form) {
		case 0: return spans(typed<std::byte>(c));
		case 1: return spans(typed<unsigned char>(c));
		case 2: return spans(typed<char>(c));
		case 3: return spans(typed<signed char>(c));
		case 4: return spans(typed<char8_t>(c));
		case 5: { const auto t = typed<char>(c); return run(c, [&](auto & h, size_t o, size_t n) { h.update(std::string_view(t.a + o, n)); }); }
		case 6: { const auto t = typed<char8_t>(c); return run(c, [&](auto & h, size_t o, size_t n) { h.update(std::u8string_view(t.a + o, n)); }); }
		case 7: { const auto t = typed<std::byte>(c); return run(c, [&](auto & h, size_t o, size_t n) { h.update(std::span<const std::byte>(t.a + o, n)); }); }
		default: { const auto t = typed<char>(c); const std::string s(t.a, t.a + c.len); return run(c, [&](auto & h, size_t o, size_t n) { upd(h, std::string(s, o, n)); }); }
	}
}
constexpr Case pick(unsigned i) {
	constexpr size_t L[] = {0, 1, B - 1, B, B + 1, B > 24 ? B - 9 : 3, B > 24 ? B - 8 : 5, B > 24 ? B - 17 : 7, B > 24 ? B - 16 : 9, 2 * B - 1, 2 * B, 2 * B + 3, B / 2, B / 2 + 5, 3 * B + 7, 8, 4, 17, 33, 60};
	const uint64_t s = cmix(CT_SEED * 1000003ull + i * 77u + PART * 7919u);
	Case c{};
	c.len = i % 5 == 4 ? s % (2 * B + 9) : L[(i + (s & 3)) % std::size(L)];
	if (i == CASES - 1) c.len = 4 * B + s % B;
	c.cut1 = (s >> 8) % 3 == 0 ? 0 : (s >> 16) % (c.len + 1);
	c.cut2 = (s >> 10) % 3 == 0 ? c.len : c.cut1 + (s >> 32) % (c.len - c.cut1 + 1);
	c.form = static_cast<unsigned>((i + PART * 3) % 9);
	c.pattern = static_cast<unsigned>((i / 2 + (s >> 40)) % 5);
	c.kind = static_cast<unsigned>((s >> 44) % 6);
	if (c.kind == 5) c.cut1 = c.cut2 = 0; // everything in one call
	c.seed = s;
	c.hseed = i % 3 ? cmix(s) : i % 2;
	return c;
}

#ifndef RUNTIME_ONLY
// literals and the one-shot helper
constexpr auto table = [] { std::array<Result, CASES> t{}; for (unsigned i = 0; i < CASES; ++i) t[i] = eval(pick(i)); return t; }();
#define TEXT "The quick brown fox\0jumps over \x80\xff\x7f the lazy dog"
constexpr auto of_literal = [] { Result r{}; H h; h.update(TEXT).update("").update("x"); put(r, finish(h)); return r; }();
constexpr auto of_u8 = [] { Result r{}; H h; h.update(u8"\u017d\u00e9").update(u8""); put(r, finish(h)); return r; }();
#if !XOF
constexpr auto of_simple = [] { Result r{}; put(r, cthash::simple<H>(std::span<const unsigned char>(std::array<unsigned char, 3>{0x80, 0, 0xff}))); return r; }();
constexpr bool of_compare = [] { const auto a = H().update("a").final(), b = H().update("a").final(), c = H().update("\xe1").final(); return a == b && !(a != b) && !(a == c) && (a < c) != (c < a) && !(a < b); }();
#endif
#endif

int main(int argc, char ** argv) {
	Args args(argc, argv);
	Report rep;
	volatile unsigned zero = 0;
#ifndef RUNTIME_ONLY
	for (unsigned i = 0; i < CASES; ++i) {
		const Case c = pick(i + zero);
		const Result r = eval(c);
		if (!(r == table[i])) rep.viol(STR(HASH), "len=%zu cuts=%zu,%zu form=%u pattern=%u kind=%u: compile time %s size %" PRIu64 ", run time %s size %" PRIu64, c.len, c.cut1, c.cut2, c.form, c.pattern, c.kind, hexs(table[i].d.data(), DS).c_str(), table[i].size, hexs(r.d.data(), DS).c_str(), r.size);
		rep.cas(key(hstr(STR(HASH)), c.seed, c.form, c.len), c.len > 0);
		if (i == 3 || i == 8) rep.sample("%s len=%zu cuts=%zu,%zu form=%u -> %s both", STR(HASH), c.len, c.cut1, c.cut2, c.form, hexs(table[i].d.data(), DS).c_str());
	}
	const char text[] = TEXT; std::vector<std::byte> bytes; for (size_t i = 0; i + 1 < sizeof text; ++i) bytes.push_back(static_cast<std::byte>(text[i + zero])); bytes.push_back(std::byte{'x'});
	{ Result r{}; H h; h.update(std::span<const std::byte>(bytes)); put(r, finish(h)); if (!(r == of_literal)) rep.viol(STR(HASH) ": literal", "compile time %s, run time %s", hexs(of_literal.d.data(), DS).c_str(), hexs(r.d.data(), DS).c_str()); rep.cas(1); }
	{ std::vector<unsigned char> u{0xc5, 0xbd, 0xc3, 0xa9}; Result r{}; H h; upd(h, u); put(r, finish(h)); if (!(r == of_u8)) rep.viol(STR(HASH) ": u8 literal", "compile time %s, run time %s", hexs(of_u8.d.data(), DS).c_str(), hexs(r.d.data(), DS).c_str()); rep.cas(2); }
#if !XOF
	{ std::vector<unsigned char> u{0x80, 0, 0xff}; Result r{}; H h; upd(h, u); put(r, finish(h)); if (!(r == of_simple)) rep.viol(STR(HASH) ": simple", "compile time %s, run time %s", hexs(of_simple.d.data(), DS).c_str(), hexs(r.d.data(), DS).c_str()); rep.cas(3); }
	if (!of_compare) rep.viol(STR(HASH) ": compare", "digests compare differently at compile time");
	rep.cas(4);
#endif
#else
	for (unsigned i = 0; i < CASES; ++i) { const Result r = eval(pick(i + zero)); rep.cas(r.d[0]); }
#endif
	return rep.done();
}
