// Independent reference implementations, written from the standards, with no
// code shared with the library under test. Validated against Python's hashlib
// and libxxhash by lib/oracle_selftest.py in every run which uses them.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace ref {

enum class Fam { sha224, sha256, sha384, sha512, sha512t, sha3_224, sha3_256, sha3_384, sha3_512, shake128, shake256, xxh32, xxh64 };

struct Spec {
	Fam fam;
	unsigned t = 0; // SHA-512/t
};

// digest of data, out has exactly outlen bytes (only SHAKE uses it freely)
void digest(Spec s, uint64_t seed, const uint8_t * data, size_t n, uint8_t * out, size_t outlen);
size_t digest_size(Spec s); // 0 for XOF
size_t block_size(Spec s);

// base-2^n text of a sequence of bits; group size = log2(alphabet)
struct Enc {
	const char * name;
	const char * alt; // or nullptr
	const char * alphabet;
	unsigned bits;
	bool padded;
};
extern const Enc encodings[11];
std::string encode(const Enc & e, const uint8_t * p, size_t n);

} // namespace ref
