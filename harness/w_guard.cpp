// Inputs, outputs and objects which end (or begin) at unmapped pages (C10). Any access outside them is a fault.
#include "core.hpp"
#include <csignal>
#include <cthash/cthash.hpp>
#include <cthash/encoding/chunk-of-bits.hpp>
#include <format>
#include <sys/mman.h>
#include <unistd.h>
using namespace rt;

constexpr size_t PAGE = 4096;
struct Guarded { // [unmapped][pages][unmapped]
	uint8_t * base; size_t size;
	explicit Guarded(size_t pages): size(pages * PAGE) {
		auto * p = static_cast<uint8_t *>(mmap(nullptr, size + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (p == MAP_FAILED || mprotect(p + PAGE, size, PROT_READ | PROT_WRITE)) { perror("mmap"); exit(3); }
		base = p + PAGE;
		memset(base, 0xd6, size);
	}
	uint8_t * at_end(size_t n) { return base + size - n; }
	void lock() { if (mprotect(base, size, PROT_READ)) exit(3); }
	void unlock() { if (mprotect(base, size, PROT_READ | PROT_WRITE)) exit(3); }
};

static Report * R;
static char current[256];
static void fault(int sig) { // report the input of the fault, then die
	char b[400]; const int n = snprintf(b, sizeof b, "V\tfault\tsignal %d during: %s\n", sig, current);
	(void)!write(1, b, static_cast<size_t>(n));
	signal(sig, SIG_DFL); raise(sig);
}

int main(int argc, char ** argv) {
	Core c(argc, argv);
	R = &c.rep;
	if (c.args.num("report", 1)) for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP}) signal(s, fault);
	Guarded in(16), out(4), obj(2), obj2(2);
	const unsigned step = static_cast<unsigned>(c.args.num("step", 1));
	for (auto * ap : c.algos) {
		const Algo & a = *ap;
		const size_t B = ref::block_size(a.spec);
		auto place = [&](Guarded & g, bool end) { const size_t sz = (a.obj_size + a.obj_align - 1) / a.obj_align * a.obj_align; return static_cast<void *>(end ? g.at_end(sz) : g.base); };
		Rng g(key(c.seed, hstr(a.name)));
		std::vector<size_t> lens;
		for (size_t n = 0; n <= 3 * B + 3; n += (n > 2 * B ? step : 1)) lens.push_back(n);
		for (unsigned i = 0; i < 30; ++i) lens.push_back(g.below(in.size));
		lens.push_back(in.size); lens.push_back(in.size - 1);
		for (size_t n : lens) for (unsigned v = 0; v < 4; ++v) {
			const bool end = v & 1;
			const size_t len = c.outlen(a, n + v);
			auto m = msg(n, P_RANDOM, key(c.seed, n));
			uint8_t * p = end ? in.at_end(n) : in.base;
			in.unlock(); if (n) memcpy(p, m.data(), n); in.lock(); // writing to the input is a fault too
			uint8_t * o = end ? out.at_end(len) : out.base;
			void * h = place(obj, v & 2), * h2 = place(obj2, v & 1);
			memset(h, static_cast<int>(0x5a + v), a.obj_size);
			snprintf(current, sizeof current, "%s len=%zu variant=%u outlen=%zu", a.name, n, v, len);
			a.construct(h, 5, a.seeded);
			const size_t k = v >= 2 ? g.below(n + 1) : 0;
			const int f = (n + v) % 3 == 0 ? F_SPAN_BYTE : (n + v) % 3 == 1 ? F_SPAN_CHAR : F_SV;
			if (k) a.update(h, f, p, k);
			a.update(h, f, nullptr, 0); // an empty span with no memory
			a.update(h, f, p + k, n - k);
			a.update(h, f, p + n, 0); // an empty span at the very end
			a.copy(h2, h);
			uint64_t sz; a.size(h, sz);
			auto finish = [&](void * x, unsigned how) {
				if (a.is_xof) a.final_xof(x, o, len);
				else if (how % 2 && a.final_span(x, o)) { }
				else a.final_value(x, o);
			};
			auto e = c.expect(a, a.seeded ? 5 : 0, m.data(), n, len);
			finish(h, static_cast<unsigned>(n));
			if (memcmp(o, e.data(), len)) R->viol(std::string(a.name) + ":digest", "%s", current);
			memset(o, 0x11, len);
			finish(h2, static_cast<unsigned>(n) + 1);
			if (memcmp(o, e.data(), len)) R->viol(std::string(a.name) + ":digest of copy", "%s", current);
			a.destroy(h); a.destroy(h2);
			if (!a.is_xof) { if (a.oneshot(f, 5, a.seeded, p, n, o) && memcmp(o, e.data(), len)) R->viol(std::string(a.name) + ":one-shot", "%s", current); }
			R->cas(key(hstr(a.name), n, v, k), n > 0);
		}
		R->sample("%s: %zu lengths at both ends of a mapping, hashers and digests at page ends, input pages read-only", a.name, lens.size());
	}
	if (c.args.num("text", 1)) {
		Guarded txt(8);
		Rng g(key(c.seed, 99));
		// encodings read exactly the input
		auto enc = [&]<typename E>(E, unsigned ix) {
			for (size_t n = 0; n <= 100; ++n) for (unsigned v = 0; v < 2; ++v) {
				auto m = msg(n, P_RANDOM, g.next());
				uint8_t * p = v ? in.at_end(n) : in.base;
				in.unlock(); if (n) memcpy(p, m.data(), n); in.lock();
				const std::string want = ref::encode(ref::encodings[ix], m.data(), n);
				snprintf(current, sizeof current, "encoding %s of %zu bytes", ref::encodings[ix].name, n);
				char * o = reinterpret_cast<char *>(v ? txt.at_end(want.size()) : txt.base), * s = o;
				for (char ch : std::span<const std::byte>(reinterpret_cast<const std::byte *>(p), n) | cthash::encode_to<E>) *s++ = ch;
				if (std::string(o, static_cast<size_t>(s - o)) != want) R->viol("encoding", "%s", current);
				const auto sv = std::string_view(reinterpret_cast<const char *>(p), n) | cthash::encode_to<E, wchar_t>;
				size_t cnt = 0; for (wchar_t ch : sv) cnt += ch != 0;
				if (cnt != want.size() || sv.size() != cnt) R->viol("encoding size", "%s", current);
				R->cas(key(ix, n, v, 5), n > 0);
			}
		};
		enc(cthash::encoding::base64{}, 0); enc(cthash::encoding::base64_no_padding{}, 1); enc(cthash::encoding::base64url{}, 2); enc(cthash::encoding::base32{}, 3); enc(cthash::encoding::base32_no_padding{}, 4); enc(cthash::encoding::z_base32{}, 5);
		enc(cthash::encoding::base16{}, 6); enc(cthash::encoding::base16_uppercase{}, 7); enc(cthash::encoding::base8{}, 8); enc(cthash::encoding::base4{}, 9); enc(cthash::encoding::base2{}, 10);
		R->sample("11 encodings of 0..100 bytes between unmapped pages, text written up to an unmapped page");
		// values at page ends
		auto val = [&]<typename V>(std::type_identity<V>, const char * name) {
			constexpr size_t N = V{}.size();
			for (unsigned i = 0; i < 60; ++i) {
				auto m = msg(N, i % P_COUNT, g.next()), m2 = i % 3 ? m : msg(N, P_RANDOM, g.next());
				if (i % 3 == 1) m2[N - 1] ^= 0x80;
				snprintf(current, sizeof current, "%s value %s and %s", name, hexs(m.data(), N).c_str(), hexs(m2.data(), N).c_str());
				V & a = *new (i % 2 ? obj.at_end(sizeof(V)) : obj.base) V; V & b = *new (i % 2 ? obj2.at_end(sizeof(V)) : obj2.base) V;
				memcpy(a.data(), m.data(), N); memcpy(b.data(), m2.data(), N);
				const int want = memcmp(m.data(), m2.data(), N);
				if ((a == b) != (want == 0) || (a < b) != (want < 0) || ((a <=> b) > 0) != (want > 0)) R->viol("compare", "%s", current);
				struct Text { char t[N * 2 + 1]; };
				Text & t = *new (i % 2 ? txt.at_end(sizeof(Text)) : txt.base) Text;
				auto h = hex(m.data(), N); memcpy(t.t, h.c_str(), N * 2 + 1);
				V & parsed = *new (i % 2 ? out.at_end(sizeof(V)) : out.base) V(t.t);
				if (memcmp(parsed.data(), m.data(), N)) R->viol("parse", "%s", current);
				using F = decltype(to_fixed_string(a));
				F & f = *new (i % 2 ? txt.at_end(sizeof(F)) : txt.base) F(to_fixed_string(a));
				if (std::string_view(f) != h) R->viol("to_fixed_string", "%s", current);
				using P = decltype(a.template prefix<N / 2>());
				P & p = *new (i % 2 ? out.at_end(sizeof(P)) : out.base) P(a.template prefix<N / 2>());
				if (memcmp(p.data(), m.data(), N / 2)) R->viol("prefix", "%s", current);
				P & s = *new (i % 2 ? out.at_end(sizeof(P)) : out.base) P(a.template suffix<N / 2>());
				if (memcmp(s.data(), m.data() + N - N / 2, N / 2)) R->viol("suffix", "%s", current);
				char * o = reinterpret_cast<char *>(i % 2 ? txt.at_end(N * 8) : txt.base);
				if (std::format_to(o, "{:binary}", a) != o + N * 8) R->viol("format_to", "%s", current);
				std::string big = std::format("{}{:base64}{:z_base32}", a, b, a);
				if (big.compare(0, N * 2, h)) R->viol("format", "%s", current);
				R->cas(key(hstr(name), i, 6));
			}
		};
		val(std::type_identity<cthash::sha224_value>{}, "sha224"); val(std::type_identity<cthash::sha256_value>{}, "sha256"); val(std::type_identity<cthash::sha3_512_value>{}, "sha3_512"); val(std::type_identity<cthash::xxhash32_value>{}, "xxh32");
		val(std::type_identity<cthash::xxhash64_value>{}, "xxh64"); val(std::type_identity<cthash::shake128_value<1024>>{}, "shake128"); val(std::type_identity<cthash::hash_value<3>>{}, "hash_value<3>");
		R->sample("7 digest types at page ends: compare, parse, prefix, suffix, to_fixed_string, format");
	}
	return c.rep.done();
}
