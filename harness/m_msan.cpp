// Digests and texts hold no uninitialised byte and no decision depends on one (C10), under MemorySanitizer.
// Uses nothing compiled without instrumentation except printf.
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cthash/cthash.hpp>
#include <cthash/sha2/sha512/t.hpp>
#include <sanitizer/msan_interface.h>

static unsigned long evals;
static uint64_t s = 88172645463325252ull;
static uint64_t rnd() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static uint8_t data[3000];
static void need(const void * p, size_t n, const char * what) { __msan_check_mem_is_initialized(p, n); ++evals; (void)what; }

template <typename H, typename Fin> static void one(const char * name, Fin && fin) {
	for (size_t n = 0; n <= 300; ++n) for (unsigned v = 0; v < 2; ++v) {
		// exactly the input is initialised
		auto * in = static_cast<uint8_t *>(malloc(n + 64));
		if (n) memcpy(in, data + (n % 50), n);
		const auto sp = std::span<const std::byte>(reinterpret_cast<const std::byte *>(in), n);
		auto * mem = static_cast<H *>(malloc(sizeof(H)));
		H * h = new (mem) H();
		const size_t k = v ? rnd() % (n + 1) : 0;
		if (k) h->update(sp.first(k));
		h->update(sp.subspan(k));
		auto * mem2 = static_cast<H *>(malloc(sizeof(H)));
		H * c = new (mem2) H(*h);
		auto d = fin(*h);
		need(d.data(), d.size(), name);
		c->update(std::span<const std::byte>(reinterpret_cast<const std::byte *>(data), 100 + v));
		auto e = fin(*c);
		need(e.data(), e.size(), name);
		auto f = to_fixed_string(d); need(f.data(), f.size(), "text");
		auto g = to_fixed_string<cthash::encoding::base64>(d); need(g.data(), g.size() , "text");
		const bool lt = d < e, eq = d == e; need(&lt, 1, "compare"); need(&eq, 1, "compare");
		if (lt && eq) abort();
		free(mem); free(mem2); free(in);
	}
}
template <typename H> static void fixed_len(const char * n) { one<H>(n, [](H & h) { return h.final(); }); }

int main() {
	for (auto & b : data) b = static_cast<uint8_t>(rnd());
	using namespace cthash;
	fixed_len<sha224>("sha224"); fixed_len<sha256>("sha256"); fixed_len<sha384>("sha384"); fixed_len<sha512>("sha512"); fixed_len<sha512t<224>>("sha512_224"); fixed_len<sha512t<72>>("sha512_72");
	fixed_len<sha3_224>("sha3_224"); fixed_len<sha3_256>("sha3_256"); fixed_len<sha3_384>("sha3_384"); fixed_len<sha3_512>("sha3_512");
	fixed_len<xxhash32>("xxh32"); fixed_len<xxhash64>("xxh64");
	one<shake128>("shake128", [](shake128 & h) { return h.final<2048>(); }); one<shake128>("shake128", [](shake128 & h) { return h.final<24>(); });
	one<shake256>("shake256", [](shake256 & h) { return h.final<1352>(); }); one<shake256>("shake256", [](shake256 & h) { return h.final<8>(); });
	printf("S\tdigests, copies, texts and comparisons of 16 hashers over 301 lengths\nE\t%lu\t%lu\t0\nEND\n", evals, evals / 6);
}
