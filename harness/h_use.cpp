// One public header, included alone, and something to do with it (C21). Many of these are linked together.
// -DHEADER=<cthash/x.hpp> -DUSE_x -DNAME="x" [-DMORE="a.inc": further includes first] [-DONLY_COMPILE]
#ifdef MORE
#include MORE
#endif
#include HEADER
#include HEADER
#ifndef ONLY_COMPILE
#include "h_use.hpp"

// what a user of just this header can rely on
#define DIGESTS(H) \
	{ auto text = [&](const auto & v) { for (auto b : v) put_hex(r, static_cast<unsigned>(b)); r += ' '; }; \
	  H h; h.update(std::span<const std::byte>(blob, 3)); h.update(std::string_view("abc\x80")); H c(h); c.update("literal"); \
	  text(FIN(h)); text(FIN(c)); for (unsigned n = 0; n < 300; n += 7) { H e; e.update(std::span<const std::byte>(blob, n)); text(FIN(e)); } }
#define FIN(x) x.final()

static void use(std::string & r) {
#ifdef USE_sha224
	DIGESTS(cthash::sha224)
#endif
#ifdef USE_sha256
	DIGESTS(cthash::sha256)
#endif
#ifdef USE_sha384
	DIGESTS(cthash::sha384)
#endif
#ifdef USE_sha512
	DIGESTS(cthash::sha512)
#endif
#ifdef USE_sha512t
	DIGESTS(cthash::sha512t<224>)
	DIGESTS(cthash::sha512t<256>)
	DIGESTS(cthash::sha512t<40>)
#endif
#ifdef USE_sha3_224
	DIGESTS(cthash::sha3_224)
#endif
#ifdef USE_sha3_256
	DIGESTS(cthash::sha3_256)
#endif
#ifdef USE_sha3_384
	DIGESTS(cthash::sha3_384)
#endif
#ifdef USE_sha3_512
	DIGESTS(cthash::sha3_512)
#endif
#ifdef USE_xxhash
	DIGESTS(cthash::xxhash32)
	DIGESTS(cthash::xxhash64)
	{ cthash::xxhash64 h(77u); h.update("seeded"); for (auto b : h.final()) put_hex(r, static_cast<unsigned>(b)); }
#endif
#undef FIN
#define FIN(x) x.template final<264>()
#ifdef USE_shake128
	[&]<typename = void>() { DIGESTS(cthash::shake128) }();
#endif
#ifdef USE_shake256
	[&]<typename = void>() { DIGESTS(cthash::shake256) }();
#endif
#ifdef USE_simple
	// takes any hasher; bring our own
	struct H { unsigned n = 0; constexpr H & update(std::span<const std::byte> s) { n += static_cast<unsigned>(s.size()); return *this; } constexpr unsigned final() const { return n; } };
	(void)sizeof(H);
	r += "included";
#endif
#ifdef USE_value
	{
		using namespace cthash::literals;
		const auto v = "00ff10a5fbefbe"_hash;
		cthash::hash_value<7> w("00FF10a5fbefbf");
		r += v == w ? "=" : v < w ? "<" : ">";
		r += to_string(v); r += ' ';
		for (char c : to_fixed_string(w)) if (c) r += c;
		for (auto b : w.prefix<2>()) put_hex(r, static_cast<unsigned>(b));
		for (auto b : v.suffix<3>()) put_hex(r, static_cast<unsigned>(b));
		r += to_string<cthash::encoding::base64>(v);
		std::ostringstream o; o << v; r += o.str();
	}
#endif
#ifdef USE_fixed_string
	{
		cthash::fixed_string f("some text");
		r.append(f.data(), f.size());
		r += f == "some text" ? "=" : "!";
		cthash::fixed_string g(u8"abc");
		r += std::to_string(g.size());
	}
#endif
#ifdef USE_encoding_base
	{
		for (char c : std::span<const std::byte>(blob, 20) | cthash::base64_encode) r += c;
		for (char c : std::string_view("text") | cthash::hexdec_encode) r += c;
		for (char c : std::string("text2") | cthash::encode_to<cthash::encoding::z_base32>) r += c;
		r += (std::span<const std::byte>(blob, 11) | cthash::base32_encode).to_string();
		r += cthash::base64url_encode(std::span<const std::byte>(blob, 13)).to_string();
		std::ostringstream o;
		o << (std::span<const std::byte>(blob + 5, 9) | cthash::base8_encode);
		r += o.str();
	}
#endif
#ifdef USE_encodings
	{
		r += cthash::encoding::base64::name; r += cthash::encoding::z_base32::name;
		auto e = cthash::select_runtime_encoding<cthash::encoding::base16>(std::string_view("base32}"));
		r += e.encoding.visit([]<typename E>(E) { return std::string(E::name); });
		try { (void)cthash::select_runtime_encoding<cthash::encoding::base16>(std::string_view("base33}")); r += "accepted"; } catch (const std::exception &) { r += "rejected"; }
	}
#endif
#ifdef USE_chunk
	{
		std::array<unsigned char, 5> a{1, 0x80, 0xff, 0x37, 9};
		for (auto v : std::span<const unsigned char>(a) | cthash::chunk_of_bits<5>) r += std::to_string(static_cast<unsigned>(v.value)) + ",";
	}
#endif
#ifdef USE_bit_buffer
	{
		cthash::bit_buffer<6, 8> b;
		b.push(0xa5); b.push(0x3c); b.push(1);
		while (b.has_bits_for_pop()) { r += std::to_string(static_cast<unsigned>(b.front())) + ","; b.pop(); }
	}
#endif
	if (r.empty()) r = "included";
}
[[maybe_unused]] static const bool added = add_use(NAME, use);
#endif
