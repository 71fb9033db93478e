// Prints what the library computes for a fixed set of uses (C20, C21). Built many ways; the texts must be the same.
// -DHEADER=<...> selects the header under test, which is included first.
#ifdef HEADER
#include HEADER
#else
#include <cthash/cthash.hpp>
#include <cthash/sha2/sha512/t.hpp>
#endif
#ifdef EXTRA_HEADER
#include EXTRA_HEADER
#endif
#include "rt.hpp"
#include <array>
#include <list>
#include <span>
#include <sstream>
#include <string>
#include <vector>
using namespace rt;

static uint64_t seed;
static unsigned long lines;
static void line(const std::string & what, const std::string & text) { ++lines; printf("T\t%s\t%s\n", what.c_str(), text.c_str()); }
template <typename V> static std::string raw(const V & v) { return hex(v.data(), v.size()); }
template <typename S> static std::string narrow(const S & s) { std::string r; for (auto c : s) { char b[12]; const auto u = static_cast<uint32_t>(c); if (u > 32 && u < 127) r += static_cast<char>(u); else { snprintf(b, sizeof b, "<%x>", u); r += b; } } return r; }

template <typename H, typename Fin> static void hasher(const char * name, size_t B, Fin && fin, auto &&... ctor) {
	Rng g(key(seed, hstr(name)));
	auto one = [&](size_t n, unsigned pat) {
		auto m = msg(n, pat, g.next());
		const auto * c = reinterpret_cast<const char *>(m.data());
		std::string t;
		{ H h(ctor...); h.update(std::span<const std::byte>(reinterpret_cast<const std::byte *>(c), n)); if constexpr (requires { h.size(); }) t += std::to_string(static_cast<unsigned long long>(h.size())) + " "; t += raw(fin(h)); }
		{ H h(ctor...); const size_t k = g.below(n + 1); h.update(std::string_view(c, k)); H d(h); h.update(std::string_view("\x80junk")); h.update(std::span<const unsigned char>(m).first(k / 2)); t += " " + raw(fin(h)); d.update(std::span<const char8_t>(reinterpret_cast<const char8_t *>(c) + k, n - k)); t += " " + raw(fin(d)); }
		{ H h(ctor...); for (size_t o = 0; o < n;) { const size_t k = std::min<size_t>(n - o, g.in(1, B / 2 + 3)); h.update(std::span<const signed char>(reinterpret_cast<const signed char *>(c) + o, k)); o += k; } t += " " + raw(fin(h)); }
		line(std::string(name) + " " + std::to_string(n) + " " + pattern_names[pat], t);
	};
	for (size_t n = 0; n <= 2 * B + 3; ++n) one(n, static_cast<unsigned>(n % P_COUNT));
	for (unsigned i = 0; i < 12; ++i) one(g.below(3000), i % P_COUNT);
	one(70001, P_RANDOM);
	{ H h(ctor...); h.update("literal \0 \x80 \xff").update(u8"\u00e9\u4e16").update(""); line(std::string(name) + " literals", raw(fin(h))); }
	if constexpr (sizeof...(ctor) == 0 && requires { cthash::simple<H>("abc"); }) line(std::string(name) + " simple", raw(cthash::simple<H>("abc")) + " " + raw(cthash::simple<H>(std::string_view("\xff\0x", 3))));
}
template <typename H> static void fixed_len(const char * name, size_t B, auto &&... ctor) { hasher<H>(name, B, [](H & h) { return h.final(); }, ctor...); }

template <typename V> static void value(const char * name) {
	constexpr size_t N = V{}.size();
	V last{};
	for (unsigned i = 0; i < 10; ++i) {
		V v;
		auto m = msg(N, i % P_COUNT, key(seed, hstr(name), i)); memcpy(v.data(), m.data(), N);
		std::string t;
		{ std::ostringstream o; o << v; t += o.str(); }
		{ std::wostringstream o; o << v; t += " " + narrow(o.str()); }
		t += " " + to_string(v) + " " + narrow(to_fixed_string(v)) + " " + to_string<cthash::encoding::base64>(v) + " " + narrow(to_fixed_string<cthash::encoding::z_base32, char16_t>(v)) + " " + narrow(to_string<cthash::encoding::base32, wchar_t>(v));
		t += " " + narrow(v | cthash::encode_to<cthash::encoding::base8>) + " " + narrow(v | cthash::base64url_encode);
#if defined(CTHASH_STDFMT_AVAILABLE)
		t += std::format(" {} {:base64} {:zbase32} {:base32_no_padding} {:BASE16} {:binary}", v, v, v, v, v, v);
		t += " " + narrow(std::format(L"{} {:base64url} {:hexdec}", v, v, v));
#endif
		t += std::string(" ") + (v < last ? "<" : "") + (v == last ? "=" : "") + (v > last ? ">" : "") + (v >= last ? "g" : "");
		t += " " + raw(v.template prefix<N / 2>()) + " " + raw(v.template suffix<N / 3 + 1>());
		{ char b[N * 2 + 1]; auto s = hex(m.data(), N); for (auto & ch : s) if (i % 2) ch = static_cast<char>(toupper(ch)); memcpy(b, s.c_str(), N * 2 + 1); t += " " + raw(V(b)); wchar_t w[N * 2 + 1]; for (size_t k = 0; k <= N * 2; ++k) w[k] = static_cast<wchar_t>(b[k]); t += " " + raw(V(w)); }
		line(std::string(name) + " " + std::to_string(i), t);
		last = v;
	}
}

template <typename E> static void encoding(const char * name) {
	for (size_t n = 0; n <= 40; ++n) {
		auto m = msg(n, static_cast<unsigned>(n % P_COUNT), key(seed, n));
		std::string t;
		auto bytes = std::span<const std::byte>(reinterpret_cast<const std::byte *>(m.data()), n);
		auto v = bytes | cthash::encode_to<E>; t += narrow(v) + " " + std::to_string(v.size());
		t += " " + narrow(std::string(m.begin(), m.end()) | cthash::encode_to<E, char32_t>);
		t += " " + narrow(std::vector<signed char>(m.begin(), m.end()) | cthash::encode_to<E, wchar_t>);
		t += " " + narrow(std::list<unsigned char>(m.begin(), m.end()) | cthash::encode_to<E, char8_t>);
		line(std::string(name) + " " + std::to_string(n), t);
	}
}

int main(int argc, char ** argv) {
	Args args(argc, argv);
	seed = args.num("seed", 1);
#if !defined(PART) || PART == 0
	fixed_len<cthash::sha224>("sha224", 64); fixed_len<cthash::sha256>("sha256", 64); fixed_len<cthash::sha384>("sha384", 128); fixed_len<cthash::sha512>("sha512", 128);
	fixed_len<cthash::sha512t<224>>("sha512_224", 128); fixed_len<cthash::sha512t<8>>("sha512_8", 128); fixed_len<cthash::sha512t<504>>("sha512_504", 128);
	fixed_len<cthash::sha3_224>("sha3_224", 144); fixed_len<cthash::sha3_256>("sha3_256", 136); fixed_len<cthash::sha3_384>("sha3_384", 104); fixed_len<cthash::sha3_512>("sha3_512", 72);
	hasher<cthash::shake128>("shake128", 168, [](cthash::shake128 & h) { return h.final<2696>(); });
	hasher<cthash::shake256>("shake256", 136, [](cthash::shake256 & h) { return h.final<24>(); });
	fixed_len<cthash::xxhash32>("xxh32", 16); fixed_len<cthash::xxhash64>("xxh64", 32); fixed_len<cthash::xxhash32>("xxh32 seed", 16, 0x9e3779b1u); fixed_len<cthash::xxhash64>("xxh64 seed", 32, 0xfedcba9876543210ull);
#endif
#if !defined(PART) || PART == 1
	value<cthash::sha224_value>("sha224_value"); value<cthash::hash_value<5>>("hash_value<5>"); value<cthash::xxhash64_value>("xxhash64_value"); value<cthash::shake128_value<200>>("shake128_value<200>");
	{ cthash::shake256_value<64> a{}; cthash::shake256_value<16> b{}; std::string t; for (unsigned i = 0; i < 12; ++i) { a[i % 8] = static_cast<std::byte>(i * 37); if (i % 3) b[i % 2] = a[i % 2]; t += a == b ? '=' : a < b ? '<' : '>'; t += b == a ? '=' : b < a ? '<' : '>'; } line("shake256 cross", t); }
	encoding<cthash::encoding::base64>("base64"); encoding<cthash::encoding::base64_no_padding>("base64_no_padding"); encoding<cthash::encoding::base64url>("base64url"); encoding<cthash::encoding::base32>("base32"); encoding<cthash::encoding::base32_no_padding>("base32_no_padding");
	encoding<cthash::encoding::z_base32>("z_base32"); encoding<cthash::encoding::base16>("base16"); encoding<cthash::encoding::base16_uppercase>("base16_uppercase"); encoding<cthash::encoding::base8>("base8"); encoding<cthash::encoding::base4>("base4"); encoding<cthash::encoding::base2>("base2");
#endif
	printf("E\t%lu\t%lu\t0\nEND\n", lines, lines);
	return 0;
}
