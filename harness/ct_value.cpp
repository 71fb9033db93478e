// Encoding, parsing, comparing and cutting digests in constant expressions (C09): the compiler evaluates a table of
// cases, then the program evaluates the same cases at run time from data the compiler cannot see, and compares.
// -DENC=cthash::encoding::x or -DVALUES; -DRUNTIME_ONLY leaves the tables empty.
#include "rt.hpp"
#include <array>
#include <cthash/cthash.hpp>
#include <cthash/encoding/chunk-of-bits.hpp>
using namespace rt;
#define STR2(x) #x
#define STR(...) STR2(__VA_ARGS__)
constexpr uint64_t cmix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
constexpr uint64_t word_of(uint64_t seed, unsigned pattern, size_t i) { const auto r = cmix(seed + i * 31); switch (pattern) { case 0: return r; case 1: return r | 0x8080808080808080ull; case 2: return ~0ull; case 3: return 0; default: return i == 2 ? 1 : 0; } }
struct Out { std::array<uint32_t, 700> v{}; size_t n = 0, m = 0; constexpr void add(uint64_t c) { if (n < v.size()) v[n] = static_cast<uint32_t>(c); ++n; } constexpr bool operator==(const Out &) const = default; };
static std::string show(const Out & o) { std::string s = std::to_string(o.n) + "/" + std::to_string(o.m) + ":"; for (size_t i = 0; i < o.n && i < 60; ++i) s += o.v[i] >= 33 && o.v[i] < 127 ? std::string(1, static_cast<char>(o.v[i])) : "\\" + std::to_string(o.v[i]); return s; }
struct Case { unsigned form, pattern; size_t len; uint64_t seed; };
constexpr Case pick(unsigned i) { const auto s = cmix(CT_SEED * 999983ull + i); return {i % 8, static_cast<unsigned>((s >> 8) % 5), i < 24 ? i / 8 + (s >> 20) % 3 * 4 : (s >> 16) % 30, s}; }

#ifdef ENC
template <typename CharT, typename T> constexpr Out enc_of(const Case & c) {
	std::array<T, 32> a{};
	for (size_t i = 0; i < c.len; ++i) a[i] = static_cast<T>(word_of(c.seed, c.pattern, i));
	Out o{};
	auto view = std::span<const T>(a).first(c.len) | cthash::encode_to<ENC, CharT>;
	auto other = view.begin();
	for (auto ch : view) o.add(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<CharT, wchar_t>, int, std::conditional_t<(sizeof(CharT) == 1), char, std::conditional_t<(sizeof(CharT) == 2), short, int>>>>>(ch));
	o.m = view.size();
	if (other != view.end()) { auto third = other; ++third; o.add(static_cast<uint32_t>(*other)); }
	return o;
}
constexpr Out eval(const Case & c) {
	switch (c.form) {
		case 0: return enc_of<char, std::byte>(c);
		case 1: return enc_of<wchar_t, unsigned char>(c);
		case 2: return enc_of<char8_t, std::byte>(c);
		case 3: return enc_of<char16_t, char>(c);
		case 4: return enc_of<char32_t, signed char>(c);
#ifdef WIDE
		case 5: return enc_of<char, uint16_t>({c.form, c.pattern, c.len / 2, c.seed});
#endif
		default: return enc_of<char, unsigned char>(c);
	}
}
constexpr unsigned CASES = 64;
#else
constexpr unsigned CASES = 48;
template <typename V> constexpr V value_of(const Case & c, unsigned which) {
	V v{};
	for (size_t i = 0; i < v.size(); ++i) v[i] = static_cast<std::byte>(word_of(c.seed, c.pattern, i) & 0xffu);
	if (which) v[(c.seed >> 5) % v.size()] = static_cast<std::byte>(cmix(c.seed + which) & 0xffu);
	return v;
}
template <typename A, typename B> constexpr void cmp(Out & o, const A & a, const B & b) { o.add(a == b); o.add(a != b); o.add(a < b); o.add(a > b); o.add(a <= b); o.add(b <= a); o.add((a <=> b) < 0); }
template <typename V, typename CharT> constexpr Out all_of(const Case & c) {
	Out o{};
	constexpr size_t N = V{}.size();
	const V a = value_of<V>(c, 0), b = value_of<V>(c, 1), a2 = a;
	cmp(o, a, b); cmp(o, a, a2);
	CharT text[N * 2 + 1]{};
	for (size_t i = 0; i < N * 2; ++i) text[i] = static_cast<CharT>((cmix(c.seed ^ i) & 1 ? "0123456789abcdef" : "0123456789ABCDEF")[cmix(c.seed + i * 3) & 15]);
	const V p(text);
	for (auto x : p) o.add(static_cast<unsigned>(x));
	cthash::fixed_string<CharT, N * 2> fixed(nullptr);
	for (size_t i = 0; i < N * 2; ++i) fixed[i] = text[i];
	const V q(fixed);
	cmp(o, p, q);
	for (auto x : a.template prefix<N / 2 + 1>()) o.add(static_cast<unsigned>(x));
	for (auto x : a.template suffix<3>()) o.add(static_cast<unsigned>(x));
	for (auto x : to_fixed_string(a)) o.add(static_cast<unsigned char>(x));
	for (auto x : to_fixed_string<cthash::encoding::base64, CharT>(a)) o.add(static_cast<uint32_t>(x));
	for (auto x : to_fixed_string<cthash::encoding::z_base32, CharT>(b)) o.add(static_cast<uint32_t>(x));
	{ const auto s = to_string<cthash::encoding::base32>(a); for (auto x : s) o.add(static_cast<unsigned char>(x)); }
	o.m = N;
	return o;
}
template <size_t N, size_t K> constexpr Out cross(const Case & c) {
	Out o{};
	const auto a = value_of<cthash::shake128_value<N>>(c, 0); auto b = value_of<cthash::shake128_value<K>>(c, 0), d = value_of<cthash::shake128_value<K>>(c, 1);
	cmp(o, a, b); cmp(o, b, a); cmp(o, a, d); cmp(o, d, a);
	const auto e = value_of<cthash::shake256_value<N>>(c, 0); auto f = value_of<cthash::shake256_value<K>>(c, 2);
	cmp(o, e, f); cmp(o, f, e);
	return o;
}
template <unsigned Bits, bool Pad> constexpr Out chunks(const Case & c) {
	Out o{};
	std::array<unsigned char, 32> a{};
	for (size_t i = 0; i < c.len; ++i) a[i] = static_cast<unsigned char>(word_of(c.seed, c.pattern, i));
	const auto in = std::span<const unsigned char>(a).first(c.len);
	const auto v = in | cthash::chunk_of_bits<Bits, Pad>;
	for (auto x : v) { o.add(uint64_t(x.value)); o.add(x.is_padding()); o.add(x.missing_bits); }
	o.m = v.size();
	return o;
}
constexpr Out eval(const Case & c) {
	switch (c.form) {
		case 0: return all_of<cthash::sha256_value, char>(c);
		case 1: return all_of<cthash::sha384_value, char8_t>(c);
		case 2: return all_of<cthash::hash_value<20>, wchar_t>(c);
		case 3: return all_of<cthash::xxhash64_value, char16_t>(c);
		case 4: return all_of<cthash::shake128_value<264>, char32_t>(c);
		case 5: return cross<256, 64>(c);
		case 6: return cross<8, 512>(c);
		default: switch (c.seed % 6) { case 0: return chunks<6, true>(c); case 1: return chunks<5, false>(c); case 2: return chunks<3, true>(c); case 3: return chunks<1, false>(c); case 4: return chunks<12, true>(c); default: return chunks<7, true>(c); }
	}
}
#endif

#ifndef RUNTIME_ONLY
constexpr auto table = [] { std::array<Out, CASES> t{}; for (unsigned i = 0; i < CASES; ++i) t[i] = eval(pick(i)); return t; }();
#ifdef VALUES
using namespace cthash::literals;
constexpr auto lit = "00ff7f80e3B0C44298fC1C149afbf4c8996fb92427ae41e4649b934ca495991b"_sha256;
constexpr auto lit2 = L"aB"_hash;
constexpr auto lit3 = u8"0f1E2d3C"_xxh32;
static_assert(lit[1] == std::byte{0xff} && lit[3] == std::byte{0x80} && lit[31] == std::byte{0x1b} && lit2[0] == std::byte{0xab} && lit3[2] == std::byte{0x2d});
#endif
#endif

int main(int argc, char ** argv) {
	Args args(argc, argv);
	Report rep;
	volatile unsigned zero = 0;
#ifdef ENC
	const char * name = STR(ENC);
#else
	const char * name = "values";
#endif
	for (unsigned i = 0; i < CASES; ++i) {
		const Case c = pick(i + zero);
		const Out r = eval(c);
#ifndef RUNTIME_ONLY
		if (!(r == table[i])) rep.viol(name, "form=%u pattern=%u len=%zu: compile time %s, run time %s", c.form, c.pattern, c.len, show(table[i]).c_str(), show(r).c_str());
#endif
		rep.cas(key(hstr(name), i, c.seed), c.len > 0);
		if (i == 9 || i == 30) rep.sample("%s form=%u len=%zu: %s both", name, c.form, c.len, show(r).c_str());
	}
	return rep.done();
}
