#include "ref.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace ref {

// ---- SHA-2: constants are derived from primes as FIPS 180-4 says, not copied
static bool prime(unsigned n) {
	for (unsigned d = 2; d * d <= n; ++d) if (n % d == 0) return false;
	return n > 1;
}
static unsigned nth_prime(unsigned i) {
	unsigned n = 1;
	for (;;) { ++n; if (prime(n) && i-- == 0) return n; }
}
typedef unsigned __int128 u128;
// floor(frac(p^(1/k)) * 2^64) by integer search on 192-bit products
struct U256 { uint64_t w[4]; };
static U256 mul(u128 a, u128 b) { // 128x128
	uint64_t a0 = a, a1 = a >> 64, b0 = b, b1 = b >> 64;
	u128 p00 = (u128)a0 * b0, p01 = (u128)a0 * b1, p10 = (u128)a1 * b0, p11 = (u128)a1 * b1;
	U256 r{}; r.w[0] = (uint64_t)p00;
	u128 m = (p00 >> 64) + (uint64_t)p01 + (uint64_t)p10; r.w[1] = (uint64_t)m;
	u128 h = (m >> 64) + (p01 >> 64) + (p10 >> 64) + (uint64_t)p11; r.w[2] = (uint64_t)h;
	r.w[3] = (uint64_t)((h >> 64) + (p11 >> 64));
	return r;
}
static int cmp(const U256 & a, const U256 & b) {
	for (int i = 3; i >= 0; --i) if (a.w[i] != b.w[i]) return a.w[i] < b.w[i] ? -1 : 1;
	return 0;
}
static uint64_t frac_sqrt64(unsigned p) { // largest x with x^2 <= p * 2^128
	U256 target{}; target.w[2] = p;
	u128 x = 0;
	for (int b = 70; b >= 0; --b) { u128 y = x | ((u128)1 << b); if (cmp(mul(y, y), target) <= 0) x = y; }
	return (uint64_t)x;
}
static uint64_t frac_cbrt64(unsigned p) { // largest x with x^3 <= p * 2^192 ; x < 2^68
	u128 x = 0;
	for (int b = 67; b >= 0; --b) {
		u128 y = x | ((u128)1 << b);
		// y^3 : y^2 < 2^136, multiply by y (<2^68) -> < 2^204
		U256 sq = mul(y, y);
		u128 lo = ((u128)sq.w[1] << 64) | sq.w[0];
		u128 hi = ((u128)sq.w[3] << 64) | sq.w[2];
		U256 a = mul(lo, y);
		u128 b2 = hi * y; // hi < 2^8, y < 2^68
		u128 top = (((u128)a.w[3] << 64) | a.w[2]) + b2;
		U256 cube{{a.w[0], a.w[1], (uint64_t)top, (uint64_t)(top >> 64)}};
		U256 target{}; target.w[3] = p;
		if (cmp(cube, target) <= 0) x = y;
	}
	return (uint64_t)x;
}
struct Tables {
	uint64_t k[80], iv512[8], iv384[8];
	Tables() {
		for (unsigned i = 0; i < 80; ++i) k[i] = frac_cbrt64(nth_prime(i));
		for (unsigned i = 0; i < 8; ++i) iv512[i] = frac_sqrt64(nth_prime(i));
		for (unsigned i = 0; i < 8; ++i) iv384[i] = frac_sqrt64(nth_prime(8 + i));
	}
};
static const Tables & tab() { static const Tables t; return t; }

template <typename W> static W ror(W x, int n) { return (W)((x >> n) | (x << (sizeof(W) * 8 - n))); }

template <typename W> static void compress(W * h, const uint8_t * p) {
	constexpr bool big = sizeof(W) == 8;
	constexpr int R = big ? 80 : 64;
	W w[R];
	for (int i = 0; i < 16; ++i) {
		W v = 0;
		for (size_t j = 0; j < sizeof(W); ++j) v = (W)(v << 8) | p[i * sizeof(W) + j];
		w[i] = v;
	}
	for (int i = 16; i < R; ++i) {
		W s0 = big ? ror(w[i - 15], 1) ^ ror(w[i - 15], 8) ^ (w[i - 15] >> 7) : ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3);
		W s1 = big ? ror(w[i - 2], 19) ^ ror(w[i - 2], big ? 61 : 1) ^ (w[i - 2] >> 6) : ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10);
		w[i] = w[i - 16] + s0 + w[i - 7] + s1;
	}
	W a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
	for (int i = 0; i < R; ++i) {
		W S1 = big ? ror(e, 14) ^ ror(e, 18) ^ ror(e, big ? 41 : 1) : ror(e, 6) ^ ror(e, 11) ^ ror(e, 25);
		W S0 = big ? ror(a, 28) ^ ror(a, big ? 34 : 1) ^ ror(a, big ? 39 : 1) : ror(a, 2) ^ ror(a, 13) ^ ror(a, 22);
		W kk = big ? (W)tab().k[i] : (W)(tab().k[i] >> 32);
		W t1 = hh + S1 + ((e & f) ^ (~e & g)) + kk + w[i];
		W t2 = S0 + ((a & b) ^ (a & c) ^ (b & c));
		hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
	}
	h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
}
template <typename W> static void sha2(W * h, const uint8_t * p, size_t n, uint8_t * out, size_t outlen) {
	constexpr size_t B = sizeof(W) * 16;
	u128 bits = (u128)n * 8;
	while (n >= B) { compress(h, p); p += B; n -= B; }
	uint8_t tail[2 * B] = {};
	if (n) memcpy(tail, p, n);
	tail[n] = 0x80;
	size_t len = (n + 1 + sizeof(W) * 2 <= B) ? B : 2 * B;
	for (size_t i = 0; i < sizeof(W) * 2; ++i) tail[len - 1 - i] = (uint8_t)(bits >> (8 * i));
	for (size_t o = 0; o < len; o += B) compress(h, tail + o);
	for (size_t i = 0; i < outlen; ++i) out[i] = (uint8_t)(h[i / sizeof(W)] >> (8 * (sizeof(W) - 1 - i % sizeof(W))));
}

// ---- Keccak on a bit/lane description (FIPS 202), constants generated
static uint64_t rol(uint64_t x, unsigned n) { n %= 64; return n ? (x << n) | (x >> (64 - n)) : x; }
static void keccak_p(uint64_t A[5][5]) { // A[x][y]
	static const std::vector<uint64_t> RC = [] {
		std::vector<uint64_t> rc;
		uint8_t r = 1; // LFSR x^8+x^6+x^5+x^4+1
		auto bit = [&] { int b = r & 1; r = (uint8_t)((r & 0x80) ? (r << 1) ^ 0x71 : r << 1); return b; };
		for (int ir = 0; ir < 24; ++ir) {
			uint64_t v = 0;
			for (int j = 0; j <= 6; ++j) if (bit()) v |= 1ull << ((1u << j) - 1);
			rc.push_back(v);
		}
		return rc;
	}();
	for (int round = 0; round < 24; ++round) {
		uint64_t C[5], D[5];
		for (int x = 0; x < 5; ++x) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
		for (int x = 0; x < 5; ++x) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) A[x][y] ^= D[x];
		uint64_t B[5][5];
		B[0][0] = A[0][0];
		int x = 1, y = 0;
		uint64_t R[5][5];
		R[0][0] = A[0][0];
		for (int t = 0; t < 24; ++t) {
			R[x][y] = rol(A[x][y], (unsigned)((t + 1) * (t + 2) / 2));
			int ny = (2 * x + 3 * y) % 5; x = y; y = ny;
		}
		for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) B[i][j] = R[(i + 3 * j) % 5][i];
		for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) A[i][j] = B[i][j] ^ (~B[(i + 1) % 5][j] & B[(i + 2) % 5][j]);
		A[0][0] ^= RC[(size_t)round];
	}
}
static void sponge(size_t rate, uint8_t domain, const uint8_t * p, size_t n, uint8_t * out, size_t outlen) {
	uint64_t A[5][5] = {};
	auto absorb = [&](const uint8_t * b) {
		for (size_t i = 0; i < rate; ++i) A[(i / 8) % 5][(i / 8) / 5] ^= (uint64_t)b[i] << (8 * (i % 8));
		keccak_p(A);
	};
	while (n >= rate) { absorb(p); p += rate; n -= rate; }
	std::vector<uint8_t> last(rate, 0);
	if (n) memcpy(last.data(), p, n);
	last[n] ^= domain;
	last[rate - 1] ^= 0x80;
	absorb(last.data());
	size_t done = 0;
	while (done < outlen) {
		if (done && done % rate == 0) keccak_p(A);
		size_t i = done % rate;
		out[done++] = (uint8_t)(A[(i / 8) % 5][(i / 8) / 5] >> (8 * (i % 8)));
	}
}

// ---- xxHash
static uint32_t rd32(const uint8_t * p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static uint64_t rd64(const uint8_t * p) { return (uint64_t)rd32(p) | (uint64_t)rd32(p + 4) << 32; }
static uint32_t xxh32(uint32_t seed, const uint8_t * p, size_t n) {
	const uint32_t P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
	auto rl = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
	const size_t total = n;
	uint32_t h;
	if (n >= 16) {
		uint32_t v[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
		while (n >= 16) {
			for (int i = 0; i < 4; ++i) { v[i] += rd32(p + 4 * i) * P2; v[i] = rl(v[i], 13) * P1; }
			p += 16; n -= 16;
		}
		h = rl(v[0], 1) + rl(v[1], 7) + rl(v[2], 12) + rl(v[3], 18);
	} else h = seed + P5;
	h += (uint32_t)total;
	while (n >= 4) { h = rl(h + rd32(p) * P3, 17) * P4; p += 4; n -= 4; }
	while (n) { h = rl(h + *p * P5, 11) * P1; ++p; --n; }
	h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16;
	return h;
}
static uint64_t xxh64(uint64_t seed, const uint8_t * p, size_t n) {
	const uint64_t P1 = 11400714785074694791ull, P2 = 14029467366897019727ull, P3 = 1609587929392839161ull, P4 = 9650029242287828579ull, P5 = 2870177450012600261ull;
	auto rl = [](uint64_t x, int r) { return (x << r) | (x >> (64 - r)); };
	auto round = [&](uint64_t acc, uint64_t in) { return rl(acc + in * P2, 31) * P1; };
	const size_t total = n;
	uint64_t h;
	if (n >= 32) {
		uint64_t v[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
		while (n >= 32) { for (int i = 0; i < 4; ++i) v[i] = round(v[i], rd64(p + 8 * i)); p += 32; n -= 32; }
		h = rl(v[0], 1) + rl(v[1], 7) + rl(v[2], 12) + rl(v[3], 18);
		for (int i = 0; i < 4; ++i) { h ^= round(0, v[i]); h = h * P1 + P4; }
	} else h = seed + P5;
	h += total;
	while (n >= 8) { h ^= round(0, rd64(p)); h = rl(h, 27) * P1 + P4; p += 8; n -= 8; }
	if (n >= 4) { h ^= (uint64_t)rd32(p) * P1; h = rl(h, 23) * P2 + P3; p += 4; n -= 4; }
	while (n) { h ^= *p * P5; h = rl(h, 11) * P1; ++p; --n; }
	h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; h ^= h >> 32;
	return h;
}

size_t digest_size(Spec s) {
	switch (s.fam) {
		case Fam::sha224: case Fam::sha3_224: return 28;
		case Fam::sha256: case Fam::sha3_256: return 32;
		case Fam::sha384: case Fam::sha3_384: return 48;
		case Fam::sha512: case Fam::sha3_512: return 64;
		case Fam::sha512t: return s.t / 8;
		case Fam::xxh32: return 4;
		case Fam::xxh64: return 8;
		default: return 0;
	}
}
size_t block_size(Spec s) {
	switch (s.fam) {
		case Fam::sha224: case Fam::sha256: return 64;
		case Fam::sha384: case Fam::sha512: case Fam::sha512t: return 128;
		case Fam::sha3_224: return 144;
		case Fam::sha3_256: return 136;
		case Fam::sha3_384: return 104;
		case Fam::sha3_512: return 72;
		case Fam::shake128: return 168;
		case Fam::shake256: return 136;
		case Fam::xxh32: return 16;
		case Fam::xxh64: return 32;
	}
	return 0;
}

void digest(Spec s, uint64_t seed, const uint8_t * p, size_t n, uint8_t * out, size_t outlen) {
	switch (s.fam) {
		case Fam::sha256: {
			uint32_t h[8]; for (int i = 0; i < 8; ++i) h[i] = (uint32_t)(tab().iv512[i] >> 32);
			return sha2<uint32_t>(h, p, n, out, outlen);
		}
		case Fam::sha224: { // second 32 bits of the fractional parts of square roots of primes 9..16
			uint32_t h[8]; for (int i = 0; i < 8; ++i) h[i] = (uint32_t)tab().iv384[i];
			return sha2<uint32_t>(h, p, n, out, outlen);
		}
		case Fam::sha384: { uint64_t h[8]; memcpy(h, tab().iv384, 64); return sha2<uint64_t>(h, p, n, out, outlen); }
		case Fam::sha512: { uint64_t h[8]; memcpy(h, tab().iv512, 64); return sha2<uint64_t>(h, p, n, out, outlen); }
		case Fam::sha512t: {
			uint64_t h[8]; for (int i = 0; i < 8; ++i) h[i] = tab().iv512[i] ^ 0xa5a5a5a5a5a5a5a5ull;
			std::string name = "SHA-512/" + std::to_string(s.t);
			uint8_t iv[64];
			sha2<uint64_t>(h, (const uint8_t *)name.data(), name.size(), iv, 64);
			for (int i = 0; i < 8; ++i) { uint64_t v = 0; for (int j = 0; j < 8; ++j) v = v << 8 | iv[i * 8 + j]; h[i] = v; }
			return sha2<uint64_t>(h, p, n, out, outlen);
		}
		case Fam::sha3_224: case Fam::sha3_256: case Fam::sha3_384: case Fam::sha3_512: return sponge(block_size(s), 0x06, p, n, out, outlen);
		case Fam::shake128: case Fam::shake256: return sponge(block_size(s), 0x1f, p, n, out, outlen);
		case Fam::xxh32: { uint32_t v = xxh32((uint32_t)seed, p, n); for (int i = 0; i < 4; ++i) out[i] = (uint8_t)(v >> (24 - 8 * i)); return; }
		case Fam::xxh64: { uint64_t v = xxh64(seed, p, n); for (int i = 0; i < 8; ++i) out[i] = (uint8_t)(v >> (56 - 8 * i)); return; }
	}
}

#define A64 "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
const Enc encodings[11] = {
	{"base64", nullptr, A64 "+/", 6, true},
	{"base64_no_padding", nullptr, A64 "+/", 6, false},
	{"base64url", "base64_url", A64 "-_", 6, false},
	{"base32", nullptr, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, true},
	{"base32_no_padding", nullptr, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, false},
	{"z_base32", "zbase32", "ybndrfg8ejkmcpqxot1uwisza345h769", 5, false},
	{"base16", "hexdec", "0123456789abcdef", 4, false},
	{"BASE16", "HEXDEC", "0123456789ABCDEF", 4, false},
	{"base8", "octal", "01234567", 3, true},
	{"base4", nullptr, "0123", 2, false},
	{"base2", "binary", "01", 1, false},
};
std::string encode(const Enc & e, const uint8_t * p, size_t n) {
	std::string out;
	const size_t bits = n * 8;
	for (size_t b = 0; b < bits; b += e.bits) {
		unsigned v = 0;
		for (size_t i = b; i < b + e.bits; ++i) v = v << 1 | (i < bits ? (p[i / 8] >> (7 - i % 8)) & 1u : 0u);
		out += e.alphabet[v];
	}
	if (e.padded) while ((out.size() * e.bits) % 8 != 0) out += '=';
	return out;
}

} // namespace ref
