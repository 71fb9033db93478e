// Many threads at once (C08), under ThreadSanitizer: own hashers, shared constant hashers and digests.
#include "core.hpp"
#include <atomic>
#include <cthash/cthash.hpp>
#include <format>
#include <mutex>
#include <sstream>
#include <thread>
using namespace rt;

struct Found { std::mutex m; std::vector<std::pair<std::string, std::string>> v; void add(const std::string & k, const std::string & d) { std::lock_guard l(m); if (v.size() < 20) v.emplace_back(k, d); } };

// shared, never written after the start
template <typename V> struct Shared {
	std::vector<V> values; std::vector<std::string> hexs, b64, b32;
	void init(uint64_t seed) {
		for (unsigned i = 0; i < 16; ++i) {
			V v; fill(reinterpret_cast<uint8_t *>(v.data()), v.size(), i % P_COUNT, key(seed, i)); if (i >= 8) { v = values[i - 8]; v[v.size() - 1] ^= std::byte{1}; }
			values.push_back(v);
			hexs.push_back(to_string(v)); b64.push_back(to_string<cthash::encoding::base64>(v)); b32.push_back(to_string<cthash::encoding::z_base32>(v)); // single-threaded
		}
	}
	// one random use
	void use(Rng & g, Found & f, const char * name) const {
		const size_t i = g.below(values.size()), j = g.below(values.size());
		const V & v = values[i];
		auto bad = [&](const char * what) { f.add(std::string(name) + ":" + what, hexs[i]); };
		switch (g.below(9)) {
			case 0: { std::ostringstream o; o << v; if (o.str() != hexs[i]) bad("<<"); break; }
			case 1: if (std::format("{}", v) != hexs[i]) bad("format"); break;
			case 2: if (std::format("{:base64}", v) != b64[i]) bad("format base64"); break;
			case 3: if (to_string<cthash::encoding::z_base32>(v) != b32[i]) bad("to_string"); break;
			case 4: { const int want = memcmp(v.data(), values[j].data(), v.size()); if ((v < values[j]) != (want < 0) || (v == values[j]) != (want == 0)) bad("compare"); break; }
			case 5: { std::string s; for (char c : v | cthash::encode_to<cthash::encoding::base64>) s += c; if (s != b64[i]) bad("encode"); break; }
			case 6: { auto s = to_fixed_string(v); if (std::string_view(s) != hexs[i]) bad("to_fixed_string"); if (!(V(s) == v)) bad("parse"); break; }
			case 7: { auto p = v.template prefix<2>(); auto s = v.template suffix<2>(); if (memcmp(p.data(), v.data(), 2) || memcmp(s.data(), v.data() + v.size() - 2, 2)) bad("prefix/suffix"); break; }
			case 8: { V c = v; if (!(c == v)) bad("copy"); break; }
		}
	}
};

struct Done { const Algo * a; uint64_t sd; std::vector<uint8_t> m, out; const char * what; };

// The very first use of everything in the process happens in all threads at the same moment: nothing may be
// prepared by one use for the next. Steps are separated by barriers, inside a step the threads are not ordered.
template <typename V> static void first_uses(const std::vector<uint8_t> & bytes, std::vector<std::string> & log, const std::function<void()> & meet) {
	meet(); V v{}; log.push_back(std::to_string(v == V{}));
	memcpy(reinterpret_cast<uint8_t *>(v.data()), bytes.data(), v.size());
	meet(); log.push_back(to_string(v));
	meet(); log.push_back(to_string<cthash::encoding::base64>(v));
	meet(); log.push_back(to_string<cthash::encoding::base64url>(v));
	meet(); log.push_back(to_string<cthash::encoding::base32>(v));
	meet(); log.push_back(to_string<cthash::encoding::z_base32>(v));
	meet(); log.push_back(to_string<cthash::encoding::base16_uppercase>(v));
	meet(); log.push_back(to_string<cthash::encoding::base2>(v));
	meet(); { std::ostringstream o; o << v; log.push_back(o.str()); }
	meet(); { std::ostringstream o; o << (v | cthash::encode_to<cthash::encoding::base64>); log.push_back(o.str()); }
	meet(); log.push_back(std::format("{}", v));
	meet(); log.push_back(std::format("{:base32}", v));
	meet(); log.push_back(std::format("{:base64url}", v));
	meet(); { auto f = to_fixed_string(v); log.push_back(std::string(std::string_view(f))); meet(); V w(f); log.push_back(std::to_string(w == v)); }
	meet(); { V w = v; w[0] ^= std::byte{1}; log.push_back(std::to_string(w < v) + std::to_string(w == v) + std::to_string(w > v)); }
	meet(); { auto a = v.template prefix<2>(); auto b = v.template suffix<2>(); log.push_back(to_string(a) + to_string(b)); }
}
static int cold(Core & c, unsigned threads) {
	std::atomic<unsigned> arrived{0};
	std::vector<std::vector<std::string>> logs(threads);
	std::vector<std::vector<Done>> done(threads);
	auto work = [&](unsigned id, bool alone) {
		unsigned phase = 0;
		const std::function<void()> meet = [&] { if (alone) return; ++phase; arrived.fetch_add(1); while (arrived.load() < phase * threads) std::this_thread::yield(); };
		auto & log = logs[alone ? 0 : id];
		for (size_t k = 0; k < c.algos.size(); ++k) {
			const Algo & a = *c.algos[(k + c.seed * 5) % c.algos.size()];
			const size_t B = ref::block_size(a.spec), len = Core::outlen(a, 0);
			const auto m = msg(B + 9 + id, P_RANDOM, key(c.seed, k, id));
			const uint64_t sd = a.seeded ? 77 + id : 0;
			Obj o(a), p(a); Out out(len), out2(len);
			void * raw = o.raw(0xa7);
			meet(); a.construct(raw, sd, a.seeded);
			meet(); a.update(o.mem, F_SPAN_BYTE, m.data(), 5);
			meet(); a.update(o.mem, F_SPAN_CHAR, m.data() + 5, m.size() - 5);
			meet(); p.copy_of(o);
			meet(); Core::finish(o, out, 0);
			meet(); Core::finish(p, out2, 1);
			done[id].push_back({&a, sd, m, std::vector<uint8_t>(out.p(), out.p() + len), "first use, own hasher"});
			done[id].push_back({&a, sd, m, std::vector<uint8_t>(out2.p(), out2.p() + len), "first use, own copy"});
		}
		const auto bytes = msg(256, P_RANDOM, key(c.seed, id, 3));
		first_uses<cthash::sha256_value>(bytes, log, meet);
		first_uses<cthash::sha512t_value<224>>(bytes, log, meet);
		first_uses<cthash::sha3_512_value>(bytes, log, meet);
		first_uses<cthash::shake256_value<128>>(bytes, log, meet);
		first_uses<cthash::xxhash32_value>(bytes, log, meet);
	};
	std::vector<std::thread> ts;
	for (unsigned i = 0; i < threads; ++i) ts.emplace_back(work, i, false);
	for (auto & t : ts) t.join();
	for (auto & l : done) for (auto & d : l) {
		auto e = Core::expect(*d.a, d.sd, d.m.data(), d.m.size(), d.out.size());
		if (e != d.out) c.rep.viol(std::string(d.a->name) + ":" + d.what, "%u threads, got=%s single-threaded=%s", threads, hex(d.out.data(), d.out.size()).c_str(), hex(e.data(), e.size()).c_str());
		c.rep.cas(key(hstr(d.a->name), threads, hstr(hex(d.m.data(), 8)), hstr(d.what)));
	}
	const auto got = logs;
	for (unsigned i = 0; i < threads; ++i) {
		logs[0].clear(); done[i].clear();
		work(i, true); // single-threaded again
		for (size_t k = 0; k < logs[0].size(); ++k) {
			if (k >= got[i].size() || got[i][k] != logs[0][k]) c.rep.viol("first use of a value", "step %zu of thread %u: got=%s single-threaded=%s", k, i, k < got[i].size() ? got[i][k].c_str() : "", logs[0][k].c_str());
			c.rep.cas(key(threads, i, k, hstr(logs[0][k])));
		}
	}
	c.rep.count("steps entered by all threads at once", arrived.load() / threads);
	c.rep.sample("first use of everything in the process by %u threads at once, %u steps", threads, arrived.load() / threads);
	return c.rep.done();
}

int main(int argc, char ** argv) {
	Core c(argc, argv);
	if (c.args.num("cold", 0)) return cold(c, static_cast<unsigned>(c.args.num("threads", 4)));
	const unsigned threads = static_cast<unsigned>(c.args.num("threads", 8)), ops = static_cast<unsigned>(c.args.num("ops", 300)), rounds = static_cast<unsigned>(c.args.num("rounds", 4));
	Found found;
	std::atomic<uint64_t> n_own{0}, n_shared{0}, n_values{0}, overlaps{0};
	for (unsigned round = 0; round < rounds; ++round) {
		// constant hashers holding a partial message, and digests, used by all threads
		std::vector<std::unique_ptr<Obj>> shared; std::vector<std::vector<uint8_t>> fed;
		for (auto * a : c.algos) { auto o = std::make_unique<Obj>(*a); o->make(7, a->seeded); auto m = msg(ref::block_size(a->spec) + 5 + round * 3, P_RANDOM, key(c.seed, round)); a->update(o->mem, F_SPAN_BYTE, m.data(), m.size()); shared.push_back(std::move(o)); fed.push_back(m); }
		Shared<cthash::sha256_value> s256; Shared<cthash::sha3_512_value> s512; Shared<cthash::xxhash64_value> x64; Shared<cthash::shake128_value<256>> shk;
		s256.init(c.seed + round); s512.init(c.seed + round); x64.init(c.seed + round); shk.init(c.seed + round);
		const auto & cshared = shared; const auto & c256 = s256; const auto & c512 = s512; const auto & c64 = x64; const auto & cshk = shk;
		std::atomic<unsigned> ready{0}, busy{0};
		std::vector<std::vector<Done>> done(threads);
		auto work = [&](unsigned id) {
			auto & mine = done[id];
			Rng g(key(c.seed, round, id));
			ready.fetch_add(1);
			while (ready.load() < threads) std::this_thread::yield();
			for (unsigned i = 0; i < ops; ++i) {
				if (busy.fetch_add(1, std::memory_order_relaxed) > 0) overlaps.fetch_add(1, std::memory_order_relaxed);
				const unsigned k = static_cast<unsigned>(g.below(4));
				if (k <= 1) { // the first operations of all threads meet in the same algorithm
					const size_t ix = i < c.algos.size() ? i : g.below(c.algos.size());
					const Algo & a = *c.algos[ix];
					const size_t B = ref::block_size(a.spec);
					const size_t len = Core::outlen(a, g.next(), 200);
					auto m = msg(g.below(4 * B), P_RANDOM, g.next());
					if (k == 0) {
						Obj o(a); const uint64_t sd = a.seeded ? static_cast<uint32_t>(g.next()) : 0;
						o.make(sd, a.seeded);
						for (size_t off = 0; off < m.size();) { size_t p = std::min<size_t>(g.in(1, B + 3), m.size() - off); a.update(o.mem, g.chance(1, 2) ? F_SPAN_BYTE : F_SPAN_CHAR, m.data() + off, p); off += p; if (g.chance(1, 8)) std::this_thread::yield(); }
						Out out(len); Core::finish(o, out, i);
						mine.push_back({&a, sd, m, std::vector<uint8_t>(out.p(), out.p() + len), "own hasher"});
						n_own.fetch_add(1, std::memory_order_relaxed);
					} else { // copy a shared constant hasher, continue and finish; finish a constant one in place
						const Obj & src = *cshared[ix];
						Out out(len);
						if (!a.is_xof && a.final_const(src.mem, out.p())) {
							mine.push_back({&a, a.seeded ? 7u : 0u, fed[ix], std::vector<uint8_t>(out.p(), out.p() + len), "constant final"});
						}
						uint64_t sz; if (a.size(src.mem, sz) && sz != fed[ix].size()) found.add(std::string(a.name) + ":constant size", std::to_string(sz));
						Obj o(a); o.copy_of(src);
						a.update(o.mem, F_SPAN_BYTE, m.data(), m.size());
						Core::finish(o, out, 0);
						auto w = fed[ix]; w.insert(w.end(), m.begin(), m.end());
						mine.push_back({&a, a.seeded ? 7u : 0u, w, std::vector<uint8_t>(out.p(), out.p() + len), "copied constant hasher"});
						n_shared.fetch_add(1, std::memory_order_relaxed);
					}
				} else {
					for (unsigned r = 0; r < 3; ++r) switch (g.below(4)) { case 0: c256.use(g, found, "sha256 value"); break; case 1: c512.use(g, found, "sha3-512 value"); break; case 2: c64.use(g, found, "xxhash64 value"); break; default: cshk.use(g, found, "shake128 value"); }
					n_values.fetch_add(3, std::memory_order_relaxed);
				}
				busy.fetch_sub(1, std::memory_order_relaxed);
			}
		};
		std::vector<std::thread> ts;
		for (unsigned i = 0; i < threads; ++i) ts.emplace_back(work, i);
		for (auto & t : ts) t.join();
		for (auto & l : done) for (auto & d : l) { // single-threaded again
			auto e = Core::expect(*d.a, d.sd, d.m.data(), d.m.size(), d.out.size());
			if (e != d.out) found.add(std::string(d.a->name) + ":" + d.what, "message of " + std::to_string(d.m.size()) + " bytes, got=" + hex(d.out.data(), d.out.size()) + " single-threaded=" + hex(e.data(), e.size()));
		}
	}
	for (auto & [k, d] : found.v) c.rep.viol(k, "%s", d.c_str());
	c.rep.count("digests by own hashers", n_own); c.rep.count("uses of shared constant hashers", n_shared); c.rep.count("uses of shared digests", n_values); c.rep.count("operations begun while another thread was inside one", overlaps);
	c.rep.evals = n_own + n_shared + n_values;
	for (uint64_t i = 0; i < overlaps; ++i) c.rep.distinct.insert(i);
	c.rep.sample("%u threads, %u rounds, %u operations each, over %zu algorithms; %" PRIu64 " operations overlapped another one", threads, rounds, ops, c.algos.size(), overlaps.load());
	return c.rep.done();
}
