// Prints digests and texts of the reference for lib/selftest to compare with hashlib and friends.
#include "ref.hpp"
#include <cstdio>
using namespace ref;
int main(int argc, char ** argv) {
	if (argc == 3) { // xxh32|xxh64 file
		std::vector<uint8_t> c;
		FILE * f = fopen(argv[2], "rb");
		if (!f) return 1;
		uint8_t buf[65536];
		for (size_t n; (n = fread(buf, 1, sizeof(buf), f)) > 0;) c.insert(c.end(), buf, buf + n);
		fclose(f);
		uint8_t o[8];
		Spec s{std::string(argv[1]) == "xxh32" ? Fam::xxh32 : Fam::xxh64, 0};
		digest(s, 0, c.data(), c.size(), o, digest_size(s));
		for (size_t i = 0; i < digest_size(s); ++i) printf("%02x", o[i]);
		printf("\n");
		return 0;
	}
	std::vector<uint8_t> d;
	for (int i = 0; i < 3000; ++i) d.push_back(static_cast<uint8_t>(i * 7 + (i >> 3) + 3));
	const char * names[] = {"sha224", "sha256", "sha384", "sha512", "", "sha3_224", "sha3_256", "sha3_384", "sha3_512", "shake_128", "shake_256", "xxh32", "xxh64"};
	for (int f = 0; f < 13; ++f) {
		for (size_t n : {0, 1, 3, 4, 8, 15, 16, 31, 32, 55, 56, 63, 64, 71, 72, 73, 103, 104, 105, 111, 112, 119, 120, 127, 128, 135, 136, 137, 143, 144, 145, 167, 168, 169, 256, 500, 1001, 3000}) {
			for (unsigned t : {224u, 256u}) {
				if (f != 4 && t != 224) continue;
				Spec s{static_cast<Fam>(f), t};
				const bool x = f >= 11;
				for (uint64_t seed : {0ull, 1ull, 0xfedcba9876543210ull}) {
					if (!x && seed) continue;
					size_t l = digest_size(s); if (!l) l = 400;
					uint8_t o[400];
					digest(s, f == 11 ? static_cast<uint32_t>(seed) : seed, d.data(), n, o, l);
					printf("D %s %zu %llu ", f == 4 ? (t == 224 ? "sha512_224" : "sha512_256") : names[f], n, static_cast<unsigned long long>(f == 11 ? static_cast<uint32_t>(seed) : seed));
					for (size_t i = 0; i < l; ++i) printf("%02x", o[i]);
					printf("\n");
				}
			}
		}
	}
	for (auto & e : encodings) for (size_t n = 0; n < 40; ++n) printf("E %s %zu %s\n", e.name, n, encode(e, d.data(), n).c_str());
}
