// Bit buffer against a queue of bits (C24). -DIN_WIDTH=n: bit_buffer of this input width; -DBASIC=n,..: basic_bit_buffer of these capacities
#include "rt.hpp"
#include <cthash/encoding/bit-buffer.hpp>
#include <deque>
#include <numeric>
using namespace rt;

static Report rep;
static uint64_t seed;
static unsigned rounds, ops;

struct Model {
	std::deque<bool> q;
	void push(uint64_t v, unsigned bits) { for (unsigned i = bits; i-- > 0;) q.push_back((v >> i) & 1u); }
	uint64_t front(unsigned bits) const { uint64_t v = 0; for (unsigned i = 0; i < bits; ++i) v = v << 1 | uint64_t(q[i]); return v; }
	void pop(unsigned bits) { q.erase(q.begin(), q.begin() + static_cast<long>(bits)); }
};
static uint64_t low(uint64_t v, unsigned bits) { return bits >= 64 ? v : v & ((uint64_t(1) << bits) - 1); }
static uint64_t value(Rng & g, unsigned bits) {
	switch (g.below(6)) { case 0: return 0; case 1: return low(~0ull, bits); case 2: return low(uint64_t(1) << (bits - 1), bits); case 3: return low(1, bits); default: return low(g.next(), bits); }
}

template <size_t Out, size_t In> struct Hist {
	using B = cthash::bit_buffer<Out, In>;
	static constexpr unsigned cap = std::lcm(Out, In);
	B b{};
	Model m;
	std::string log;
	bool bad = false;

	void fail(const char * what, const std::string & d) { bad = true; rep.viol(FMT_("bit_buffer<%zu,%zu>:%s", what), "%s after %s", d.c_str(), log.c_str()); }
	static std::string FMT_(const char * f, const char * what) { char x[128]; snprintf(x, sizeof x, f, Out, In, what); return x; }
	void expect(bool ok, const char * what, uint64_t got, uint64_t want) { if (!ok) fail(what, "got " + std::to_string(got) + " expected " + std::to_string(want)); }
	void observe() {
		const unsigned n = static_cast<unsigned>(m.q.size());
		const B & c = b;
		expect(c.size() == n / Out, "size", c.size(), n / Out);
		expect(c.unused_size() == (cap - n) / In, "unused_size", c.unused_size(), (cap - n) / In);
		expect(c.empty() == (n == 0), "empty", c.empty(), n == 0);
		expect(c.full() == (n == cap), "full", c.full(), n == cap);
		expect(c.has_bits_for_pop() == (n >= Out), "has_bits_for_pop", c.has_bits_for_pop(), n >= Out);
		expect(c.has_capacity_for_push() == (n + In <= cap), "has_capacity_for_push", c.has_capacity_for_push(), n + In <= cap);
		if (n >= Out) expect(uint64_t(c.front()) == m.front(Out), "front", uint64_t(c.front()), m.front(Out));
		rep.cas(key(Out, In, n, low(n ? m.front(std::min(n, 64u)) : 0, 12)), n > 0);
	}
	void step(unsigned op, Rng & g) {
		const unsigned n = static_cast<unsigned>(m.q.size());
		switch (op) {
			case 0: if (n + In <= cap) { const uint64_t v = value(g, In); b.push(static_cast<typename B::in_type>(v)); m.push(v, In); log += " push " + std::to_string(v); } break;
			case 1: if (n >= Out) { b.pop(); m.pop(Out); log += " pop"; } break;
			case 2: if (n + In <= cap) { b.push_empty(); m.push(0, In); log += " push_empty"; } break;
			case 3: if (n < Out) {
				const unsigned want = B::aligned() || n == 0 ? 0 : Out - n;
				const auto r = b.push_zeros_to_align();
				m.push(0, want);
				log += " align";
				expect(r == want, "push_zeros_to_align", r, want);
				if (!B::aligned() || n == 0) rep.count("aligned with zeros", n > 0);
				else fail("push_zeros_to_align", "an aligned buffer has a partial output");
			} break;
			case 4: if (n < Out) {
				unsigned add = 0;
				if (n) do add += In; while ((n + add) % Out);
				const auto r = b.push_zeros_for_padding();
				m.push(0, add);
				log += " pad";
				if (!B::aligned()) expect(r == n, "push_zeros_for_padding", r, n);
				else if (n) fail("push_zeros_for_padding", "an aligned buffer has a partial output");
			} break;
			case 5: { B c = b; b = c; log += " copy"; break; }
		}
		if (log.size() > 400) log.erase(0, 200);
		observe();
	}
	// every history of the given depth over the first operations
	static void all(unsigned depth) {
		uint64_t total = 1;
		for (unsigned i = 0; i < depth; ++i) total *= 5;
		for (uint64_t h = 0; h < total; ++h) {
			Hist x; Rng g(key(seed, Out, In, h));
			uint64_t c = h;
			for (unsigned i = 0; i < depth && !x.bad; ++i, c /= 5) x.step(static_cast<unsigned>(c % 5), g);
		}
		rep.count("complete short histories", total);
	}
	static void run() {
		static_assert(B::capacity() == cap);
		all(4);
		for (unsigned r = 0; r < rounds; ++r) {
			Hist x; Rng g(key(seed, Out, In, r, 5));
			x.observe();
			const unsigned bias = static_cast<unsigned>(g.below(4));
			for (unsigned i = 0; i < ops && !x.bad; ++i) {
				const unsigned k = static_cast<unsigned>(g.below(20));
				unsigned op = k < 8 + bias ? 0 : k < 16 ? 1 : k == 16 ? 2 : k == 17 ? 3 : k == 18 ? 4 : 5;
				if (op == 1 && g.chance(bias, 8)) op = 0;
				x.step(op, g);
			}
			if (r == 0 && Out == 6 && In == 8) rep.sample("bit_buffer<6,8>: ...%s", x.log.c_str());
			rep.count("histories");
		}
	}
};

// the underlying buffer: any mix of widths
template <size_t Cap> struct Basic {
	template <size_t W> static void push(cthash::basic_bit_buffer<Cap> & b, uint64_t v) { b.template push<W>(static_cast<cthash::select_bit_integer_t<W>>(v)); }
	static void run() {
		for (unsigned r = 0; r < rounds; ++r) {
			cthash::basic_bit_buffer<Cap> b{};
			Model m;
			Rng g(key(seed, Cap, r, 9));
			std::string log;
			for (unsigned i = 0; i < ops; ++i) {
				const bool in = g.chance(1, 2);
				const unsigned w = static_cast<unsigned>(g.in(1, Cap));
				bool did = false;
				[&]<size_t... W>(std::index_sequence<W...>) {
					((W + 1 == w ? (void)[&] {
						if (in) {
							if (m.q.size() + W + 1 > Cap) return;
							const uint64_t v = value(g, W + 1);
							push<W + 1>(b, v); m.push(v, W + 1); did = true; log += " push<" + std::to_string(W + 1) + ">" + std::to_string(v);
						} else {
							if (m.q.size() < W + 1) return;
							const uint64_t f = b.template front<W + 1>();
							if (f != m.front(W + 1)) rep.viol("basic_bit_buffer:front", "capacity %zu width %zu got %" PRIu64 " expected %" PRIu64 " after%s", Cap, W + 1, f, m.front(W + 1), log.c_str());
							b.template pop<W + 1>(); m.pop(W + 1); did = true; log += " pop<" + std::to_string(W + 1) + ">";
						}
					}() : (void)0), ...);
				}(std::make_index_sequence<Cap>());
				if (!did) { const size_t left = Cap - m.q.size(); if (left && left < Cap && g.chance(1, 2)) { const size_t z = g.in(1, left); b.push_empty_bits(z); m.push(0, static_cast<unsigned>(z)); log += " zeros" + std::to_string(z); } else continue; }
				if (log.size() > 300) log.erase(0, 150);
				if (b.size() != m.q.size() || b.unused_size() != Cap - m.q.size() || b.empty() != m.q.empty() || b.full() != (m.q.size() == Cap))
					rep.viol("basic_bit_buffer:size", "capacity %zu size %u expected %zu after%s", Cap, unsigned(b.size()), m.q.size(), log.c_str());
				rep.cas(key(Cap, m.q.size(), w, in, 33));
			}
		}
	}
};

template <size_t Out, size_t In> static void pair() { if constexpr (std::lcm(Out, In) <= 64) Hist<Out, In>::run(); }
template <size_t In, size_t... Out> static void outs() { (pair<Out, In>(), ...); }

int main(int argc, char ** argv) {
	Args a(argc, argv);
	seed = a.num("seed", 1); rounds = static_cast<unsigned>(a.num("rounds", 60)); ops = static_cast<unsigned>(a.num("ops", 120));
#define OUTS 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 21, 24, 28, 30, 31, 32, 33, 40, 48, 56, 63, 64
#ifdef IN_WIDTH
	outs<IN_WIDTH, OUTS>();
#endif
#ifdef BASIC
	[]<size_t... C>(std::index_sequence<C...>) { (Basic<C>::run(), ...); }(std::index_sequence<BASIC>());
#endif
	return rep.done();
}
