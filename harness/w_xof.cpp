// SHAKE output lengths (C04): every length instantiated here, for many messages, against the reference.
// -DSHAKE=128 or 256, and -DFROM=a -DCOUNT=n -DSTEP=s (bytes: a, a+s, ...), or -DLENGTHS=a,b,c
#include "core.hpp"
#include <cthash/cthash.hpp>
using namespace rt;
#if SHAKE == 128
using H = cthash::shake128;
constexpr ref::Fam FAM = ref::Fam::shake128;
#else
using H = cthash::shake256;
constexpr ref::Fam FAM = ref::Fam::shake256;
#endif

template <size_t N> static void fin(H & h, uint8_t * out) {
	const auto v = h.template final<N * 8u>();
	static_assert(sizeof(v) == N && v.size() == N);
	memcpy(out, v.data(), N);
}
struct Entry { size_t n; void (*f)(H &, uint8_t *); };
#ifdef LENGTHS
template <size_t... N> static std::vector<Entry> table_of() { return {Entry{N, fin<N>}...}; }
static std::vector<Entry> table() { return table_of<LENGTHS>(); }
#else
static std::vector<Entry> table() { return []<size_t... I>(std::index_sequence<I...>) { return std::vector<Entry>{Entry{FROM + I * STEP, fin<FROM + I * STEP>}...}; }(std::make_index_sequence<COUNT>{}); }
#endif

int main(int argc, char ** argv) {
	Args args(argc, argv);
	Report rep;
	const uint64_t seed = args.num("seed", 1);
	const auto tab = table();
	size_t maxn = 0;
	for (auto & t : tab) maxn = std::max(maxn, t.n);
	const ref::Spec spec{FAM};
	const size_t R = ref::block_size(spec);
	Rng g(key(seed, SHAKE, tab[0].n, 4));
	std::vector<size_t> lens;
	for (size_t n = 0; n <= args.num("dense", R + 9); ++n) lens.push_back(n);
	for (size_t n : {2 * R - 1, 2 * R, 2 * R + 1, 3 * R, size_t(1000), size_t(4096)}) lens.push_back(n);
	for (unsigned i = 0; i < args.num("random", 40); ++i) lens.push_back(g.below(3000));
	for (size_t n : lens) {
		const unsigned pat = static_cast<unsigned>(g.below(P_COUNT));
		const uint64_t mid = g.next();
		auto m = msg(n, pat, mid);
		std::vector<uint8_t> want(maxn);
		ref::digest(spec, 0, m.data(), n, want.data(), maxn);
		const size_t k = g.chance(1, 2) ? 0 : g.below(n + 1);
		H base;
		auto sp = std::span<const std::byte>(reinterpret_cast<const std::byte *>(m.data()), n);
		if (k) base.update(sp.first(k));
		base.update(sp.subspan(k));
		std::vector<uint8_t> out(maxn + 32);
		for (auto & t : tab) {
			H h = base;
			memset(out.data(), 0xee, out.size());
			t.f(h, out.data());
			if (memcmp(out.data(), want.data(), t.n)) {
				size_t at = 0; while (out[at] == want[at]) ++at;
				rep.viol("shake" + std::to_string(SHAKE) + ":output", "message of %zu bytes (%s, split at %zu), output of %zu bytes is wrong from byte %zu: %s, expected %s", n, pattern_names[pat], k, t.n, at, hexs(out.data(), t.n).c_str(), hexs(want.data(), t.n).c_str());
			}
			rep.cas(key(SHAKE, t.n, n, pat, mid));
		}
	}
	rep.count("output lengths instantiated", tab.size());
	rep.count("output rate blocks", (maxn + R - 1) / R);
	rep.sample("shake%d: output of %zu to %zu bytes (%zu lengths) of %zu messages", SHAKE, tab[0].n, maxn, tab.size(), lens.size());
	return rep.done();
}
