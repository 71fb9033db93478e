// Counts every dynamic allocation made inside the library (C11), and catches exceptions.
#include "core.hpp"
#include <atomic>
#include <cthash/cthash.hpp>
#include <cerrno>
#include <new>
#include <sys/mman.h>
using namespace rt;

static bool armed = false;
static unsigned long hits = 0;
extern "C" {
void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t);
void * malloc(size_t n) { if (armed) ++hits; return __libc_malloc(n); }
void * calloc(size_t a, size_t b) { if (armed) ++hits; return __libc_calloc(a, b); }
void * realloc(void * p, size_t n) { if (armed) ++hits; return __libc_realloc(p, n); }
void * aligned_alloc(size_t a, size_t n) { if (armed) ++hits; return __libc_memalign(a, n); }
void * memalign(size_t a, size_t n) { if (armed) ++hits; return __libc_memalign(a, n); }
int posix_memalign(void ** r, size_t a, size_t n) { if (armed) ++hits; *r = __libc_memalign(a, n); return *r ? 0 : ENOMEM; }
void free(void * p) { __libc_free(p); }
}

static Report * R;
struct Watch {
	const char * name; const char * what; std::string ctx;
	unsigned long before;
	Watch(const char * n, const char * w, std::string c): name(n), what(w), ctx(std::move(c)) { before = hits; armed = true; }
	~Watch() { armed = false; if (hits != before) R->viol(std::string(name) + ":" + what + ":allocates", "%lu allocations, %s", hits - before, ctx.c_str()); }
};
template <typename F> static void watch(const char * name, const char * what, const std::string & ctx, F && f) {
	try { Watch w(name, what, ctx); f(); }
	catch (...) { armed = false; R->viol(std::string(name) + ":" + what + ":throws", "%s", ctx.c_str()); }
	R->cas(key(hstr(name), hstr(what), hstr(ctx)), true);
}

template <typename V> static void values(const char * name, uint64_t seed) {
	constexpr size_t N = V{}.size();
	for (unsigned i = 0; i < 40; ++i) {
		V a, b; fill(reinterpret_cast<uint8_t *>(a.data()), N, i % P_COUNT, key(seed, i)); fill(reinterpret_cast<uint8_t *>(b.data()), N, P_RANDOM, key(seed, i, 1));
		char text[N * 2 + 1]; { auto h = hex(a.data(), N); memcpy(text, h.c_str(), N * 2 + 1); }
		volatile bool sink = false; volatile char csink = 0;
		watch(name, "compare", std::to_string(i), [&] { sink = (a == b); sink = (a < b); sink = (a >= b); sink = (a <=> b) < 0; sink = a != a; });
		watch(name, "parse", std::to_string(i), [&] { V p(text); sink = p == a; });
		watch(name, "prefix/suffix", std::to_string(i), [&] { auto p = a.template prefix<N / 2>(); auto s = a.template suffix<N / 2>(); sink = p == s; });
		watch(name, "to_fixed_string", std::to_string(i), [&] {
			auto f = to_fixed_string(a); csink = f[0];
			auto g = to_fixed_string<cthash::encoding::base64>(a); csink = g[0];
			auto h = to_fixed_string<cthash::encoding::base2, wchar_t>(a); csink = static_cast<char>(h[0]);
			auto k = to_fixed_string<cthash::encoding::base32>(b); csink = k[0];
			auto l = to_fixed_string<cthash::encoding::base8, char16_t>(b); csink = static_cast<char>(l[0]);
			V back(f); sink = back == a;
		});
		watch(name, "encode into buffer", std::to_string(i), [&] {
			char room[N * 8 + 8];
			auto fill_room = [&](auto && v) { char * o = room; for (char c : v) *o++ = c; csink = room[0]; };
			fill_room(a | cthash::hexdec_encode); fill_room(a | cthash::base64_encode); fill_room(a | cthash::base32_encode); fill_room(a | cthash::z_base32_encode);
			fill_room(a | cthash::binary_encode); fill_room(a | cthash::octal_encode); fill_room(a | cthash::base4_encode); fill_room(a | cthash::base64url_encode);
			std::ranges::copy(a | cthash::base16_encode, room); csink = room[1];
		});
	}
}

template <typename H, size_t... N> static void long_outputs(const char * name, uint64_t seed) {
	const auto m = msg(700, P_RANDOM, seed);
	for (size_t n : {size_t(0), size_t(5), size_t(135), size_t(136), size_t(168), size_t(700)}) {
		auto one = [&](auto L) {
			volatile unsigned char sink = 0;
			watch(name, "long final<N>", std::to_string(L * 8u) + " bits of " + std::to_string(n), [&] {
				H h; h.update(std::span<const uint8_t>(m).first(n)); const H k = h;
				const auto v = h.template final<L * 8u>(); sink = static_cast<unsigned char>(v[L - 1]);
				H again(k); const auto w = again.template final<L * 8u>(); sink = v == w;
			});
		};
		(one(std::integral_constant<size_t, N>{}), ...);
	}
}

static std::vector<uint8_t> * bigbuf;

// containers and views the caller owns, handed over as they are
template <typename H, size_t Out = 0> static void containers(const char * name, uint64_t seed) {
	for (size_t n : {size_t(0), size_t(1), size_t(15), size_t(16), size_t(55), size_t(64), size_t(100), size_t(128), size_t(129), size_t(300), size_t(5000), size_t(70000), size_t(1200000)}) {
		const auto m = msg(n, P_RANDOM, key(seed, n));
		volatile unsigned char sink = 0;
		auto fin = [&](auto & h) { if constexpr (Out) { const auto v = h.template final<Out>(); sink = static_cast<unsigned char>(v[0]); } else { const auto v = h.final(); sink = static_cast<unsigned char>(v[0]); } };
		auto one = [&](const char * kind, const auto & c) {
			using C = std::remove_cvref_t<decltype(c)>;
			const auto ctx = std::string(kind) + " of " + std::to_string(n);
			if constexpr (requires(H & h) { h.update(c); }) {
				watch(name, "update with", ctx, [&] { H h; h.update(c); fin(h); });
				watch(name, "update of a temporary with", ctx, [&] { auto h = H{}; h.update(c).update(c); fin(h); });
				R->count("container updates");
			}
			if constexpr (requires(H & h, C & w) { h.update(w); } && !std::is_array_v<C>) { C w = c; watch(name, "update with mutable", ctx, [&] { H h; h.update(w); fin(h); }); }
			if constexpr (requires(H & h) { h.update_and_final(c); }) watch(name, "update_and_final with", ctx, [&] { H h; const auto v = h.update_and_final(c); sink = static_cast<unsigned char>(v[0]); });
			if constexpr (requires { cthash::simple<H>(c); }) watch(name, "simple with", ctx, [&] { const auto v = cthash::simple<H>(c); sink = static_cast<unsigned char>(v[0]); });
		};
		const std::string s(reinterpret_cast<const char *>(m.data()), n);
		const std::vector<std::byte> vb(reinterpret_cast<const std::byte *>(m.data()), reinterpret_cast<const std::byte *>(m.data()) + n);
		const std::vector<char> vc(s.begin(), s.end());
		const std::u8string u8(reinterpret_cast<const char8_t *>(m.data()), n);
		one("string", s); one("vector<uint8_t>", m); one("vector<byte>", vb); one("vector<char>", vc); one("u8string", u8);
		one("string_view", std::string_view(s)); one("u8string_view", std::u8string_view(u8));
		one("span<const byte>", std::span<const std::byte>(vb)); one("span<const char>", std::span<const char>(vc)); one("span<const uint8_t>", std::span<const uint8_t>(m));
		one("vector<int8_t>", std::vector<int8_t>(m.begin(), m.end()));
	}
	std::array<std::byte, 77> ab{}; std::array<unsigned char, 200> au{}; std::array<char, 3> ac{};
	volatile unsigned char sink = 0;
	auto arr = [&](const char * kind, const auto & c) { if constexpr (requires(H & h) { h.update(c); }) watch(name, "update with", kind, [&] { H h; h.update(c); if constexpr (Out) sink = static_cast<unsigned char>(h.template final<Out>()[0]); else sink = static_cast<unsigned char>(h.final()[0]); }); };
	arr("array<byte>", ab); arr("array<uchar>", au); arr("array<char>", ac); arr("literal", "a literal of more than one or two dozen characters"); arr("array<uint8_t>", std::to_array<uint8_t>({1, 2, 3}));
}

int main(int argc, char ** argv) {
	Core c(argc, argv);
	R = &c.rep;
	setvbuf(stdout, nullptr, _IONBF, 0);
	const size_t big = c.args.num("big", 3000000);
	bigbuf = new std::vector<uint8_t>(msg(big + 300, P_RANDOM, c.seed));
	const bool types = c.args.num("types", 0); // the library's own types instead of the listed algorithms
	if (!types) for (auto * ap : c.algos) {
		const Algo & a = *ap;
		const size_t B = ref::block_size(a.spec), len = c.outlen(a, 0);
		alignas(64) static uint8_t m1[4096], m2[4096];
		if (a.obj_size > 4096) { printf("hasher too large\n"); return 3; }
		Out out(len);
		auto & data = *bigbuf;
		Rng g(key(c.seed, hstr(a.name)));
		std::vector<size_t> lens;
		for (size_t n = 0; n <= 2 * B + 2; ++n) lens.push_back(n);
		for (size_t n : {size_t(1000), size_t(4096), size_t(65535), size_t(65536), size_t(1) << 20, big}) lens.push_back(std::min(n, big));
		for (unsigned i = 0; i < 40; ++i) lens.push_back(g.below(50000));
		for (size_t n : lens) {
			const std::string ctx = "len=" + std::to_string(n);
			const int f = n % 3 == 0 ? F_SPAN_BYTE : n % 3 == 1 ? F_SPAN_CHAR : F_SV;
			watch(a.name, "construct", ctx, [&] { a.construct(m1, n, a.seeded); });
			watch(a.name, "update", ctx, [&] { a.update(m1, f, data.data(), n); });
			watch(a.name, "update", ctx, [&] { a.update(m1, f, data.data() + 1, n / 3); a.update(m1, f, data.data(), 0); });
			watch(a.name, "copy", ctx, [&] { a.copy(m2, m1); });
			watch(a.name, "final", ctx, [&] { if (a.is_xof) a.final_xof(m1, out.p(), len); else if (n % 2) a.final_value(m1, out.p()); else if (!a.final_span(m1, out.p())) a.final_value(m1, out.p()); });
			watch(a.name, "destroy", ctx, [&] { a.destroy(m1); });
			watch(a.name, "move", ctx, [&] { a.move(m1, m2); a.destroy(m2); });
			watch(a.name, "assign", ctx, [&] { a.construct(m2, 3, a.seeded); a.assign(m2, m1); });
			uint64_t s; watch(a.name, "size", ctx, [&] { a.size(m1, s); });
			watch(a.name, "final of a moved hasher", ctx, [&] { if (a.is_xof) a.final_xof(m1, out.p(), len); else if (!a.final_const(m1, out.p())) a.final_value(m1, out.p()); });
			a.destroy(m1); a.destroy(m2);
			watch(a.name, "one-shot", ctx, [&] { if (!a.is_xof) a.oneshot(f, n, a.seeded, data.data(), n, out.p()); });
			watch(a.name, "update_and_final", ctx, [&] { a.construct(m1, 0, false); a.update_and_final(m1, f, data.data(), n, out.p()); a.destroy(m1); });
		}
		if (a.is_xof) for (unsigned k = 0; k < 23; ++k) { const size_t l = c.outlen(a, k); Out o(l); watch(a.name, "final<N>", std::to_string(l), [&] { a.construct(m1, 0, false); a.final_xof(m1, o.p(), l); a.destroy(m1); }); }
		if (size_t huge = c.args.num("huge", 0)) { // address space only: untouched zero pages
			auto * p = static_cast<uint8_t *>(mmap(nullptr, huge, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
			if (p == MAP_FAILED) { printf("mmap failed\n"); return 3; }
			watch(a.name, "update, huge", std::to_string(huge), [&] { a.construct(m1, 0, false); a.update(m1, F_SPAN_BYTE, p, huge); if (a.is_xof) a.final_xof(m1, out.p(), len); else a.final_value(m1, out.p()); a.destroy(m1); });
			munmap(p, huge);
		}
		c.rep.sample("%s: construct, update, copy, final, move, assign, one-shot with %zu lengths up to %zu: no allocation seen by malloc, calloc, realloc, aligned_alloc, memalign", a.name, lens.size(), big);
	}
	// the counter itself works
	{
		void * (*volatile m)(size_t) = malloc; void * (*volatile o)(size_t) = ::operator new;
		const auto b = hits;
		armed = true; auto * p = o(4); auto * q = m(10); auto * t = new std::string(100, 'x'); armed = false;
		const bool works = hits >= b + 2 && t->size() == 100;
		::operator delete(p); free(q); delete t;
		if (!works) { printf("allocation counter is broken\n"); return 3; }
	}
	if (types) {
		long_outputs<cthash::shake128, 501, 672, 673, 840, 1000, 1344, 2048, 4096, 8191, 20000>("shake128", c.seed);
		long_outputs<cthash::shake256, 501, 544, 545, 680, 1000, 1088, 2048, 4096, 8191, 20000>("shake256", c.seed);
		containers<cthash::sha224>("sha224", c.seed); containers<cthash::sha256>("sha256", c.seed); containers<cthash::sha384>("sha384", c.seed); containers<cthash::sha512>("sha512", c.seed);
		containers<cthash::sha3_224>("sha3-224", c.seed); containers<cthash::sha3_256>("sha3-256", c.seed); containers<cthash::sha3_512>("sha3-512", c.seed);
		containers<cthash::shake128, 2000>("shake128", c.seed); containers<cthash::shake256, 256>("shake256", c.seed);
		containers<cthash::xxhash32>("xxhash32", c.seed); containers<cthash::xxhash64>("xxhash64", c.seed);
		values<cthash::sha256_value>("sha256 value", c.seed); values<cthash::sha3_512_value>("sha3-512 value", c.seed); values<cthash::xxhash32_value>("xxhash32 value", c.seed);
		values<cthash::hash_value<48>>("hash_value<48>", c.seed); values<cthash::shake128_value<1024>>("shake128 value", c.seed);
	}
	return c.rep.done();
}
