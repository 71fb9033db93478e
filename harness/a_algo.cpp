// One algorithm per object file: -DALGO_<name>, or -DALGO_T_GROUP=g for eight values of SHA-512/t.
// Includes only the header of the algorithm under test when -DOWN_HEADER is given.
#ifdef LIB_HEADER
#include LIB_HEADER
#else
#include <cthash/cthash.hpp>
#include <cthash/sha2/sha512/t.hpp>
#endif
#ifndef TAGGED_INPUT
#define TAGGED_INPUT cthash::hash_value<48>
#endif
#include "adapt.hpp"

using ref::Fam;
using namespace cthash;

template <typename H, size_t N> static void fin(H & h, uint8_t * out) {
	const auto v = h.template final<N * 8u>();
	static_assert(sizeof(v) == N);
	memcpy(out, v.data(), N);
}
template <typename H, size_t... N> static bool xof_from(void * o, uint8_t * out, size_t len) {
	H & h = *std::launder(static_cast<H *>(o));
	return ((len == N ? (fin<H, N>(h, out), true) : false) || ...);
}
#ifndef XOF_BASIC
#define XOF_BASIC 1, 2, 7, 8, 9, 16, 28, 32, 63, 64, 128, 135, 136, 137, 167, 168, 169, 200, 272, 273, 336, 337, 500
#endif

static const Algo list[] = {
#ifdef ALGO_sha224
	ad::make<sha224>("sha224", {Fam::sha224}),
#endif
#ifdef ALGO_sha256
	ad::make<sha256>("sha256", {Fam::sha256}),
#endif
#ifdef ALGO_sha384
	ad::make<sha384>("sha384", {Fam::sha384}),
#endif
#ifdef ALGO_sha512
	ad::make<sha512>("sha512", {Fam::sha512}),
#endif
#ifdef ALGO_sha3_224
	ad::make<sha3_224>("sha3_224", {Fam::sha3_224}),
#endif
#ifdef ALGO_sha3_256
	ad::make<sha3_256>("sha3_256", {Fam::sha3_256}),
#endif
#ifdef ALGO_sha3_384
	ad::make<sha3_384>("sha3_384", {Fam::sha3_384}),
#endif
#ifdef ALGO_sha3_512
	ad::make<sha3_512>("sha3_512", {Fam::sha3_512}),
#endif
#ifdef ALGO_shake128
	ad::make<shake128>("shake128", {Fam::shake128}, xof_from<shake128, XOF_BASIC>),
#endif
#ifdef ALGO_shake256
	ad::make<shake256>("shake256", {Fam::shake256}, xof_from<shake256, XOF_BASIC>),
#endif
#ifdef ALGO_xxh32
	ad::make<xxhash32>("xxh32", {Fam::xxh32}),
#endif
#ifdef ALGO_xxh64
	ad::make<xxhash64>("xxh64", {Fam::xxh64}),
#endif
#ifdef ALGO_t224
	ad::make<sha512t<224>>("sha512_224", {Fam::sha512t, 224}),
#endif
#ifdef ALGO_t256
	ad::make<sha512t<256>>("sha512_256", {Fam::sha512t, 256}),
#endif
#ifdef ALGO_T_GROUP
#define ONE_T(t) ad::make<sha512t<t>>("sha512_" #t, {Fam::sha512t, t}),
#include "t_group.inc"
#endif
};
[[maybe_unused]] static const bool registered = [] { for (auto & a : list) register_algo(a); return true; }();
