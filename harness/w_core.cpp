// Behavioural workloads over all hashers. Every digest is compared with the reference.
#include "core.hpp"
#include <set>
using namespace rt;

struct W: Core {
	using Core::Core;

	std::vector<std::pair<uint64_t, bool>> seeds_for(const Algo & a, unsigned nrandom) {
		std::vector<std::pair<uint64_t, bool>> r{{0, false}};
		if (!a.seeded) return r;
		for (uint64_t s : {0ull, 1ull, 2ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x9e3779b1ull, 2654435761ull}) r.emplace_back(s, true);
		if (a.spec.fam == ref::Fam::xxh64) for (uint64_t s : {0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 11400714785074694791ull}) r.emplace_back(s, true);
		Rng g(key(seed, hstr(a.name), 3));
		for (unsigned i = 0; i < nrandom; ++i) { uint64_t s = g.next(); if (a.spec.fam == ref::Fam::xxh32) s = static_cast<uint32_t>(s); r.emplace_back(s, true); }
		return r;
	}

	std::vector<int> forms_of(const Algo & a) { std::vector<int> f; for (int i = 0; i < F_COUNT; ++i) if (a.can_update(i)) f.push_back(i); return f; }
	std::vector<int> dyn_forms(const Algo & a) { std::vector<int> f; for (int i = 0; i <= F_VEC_CHAR; ++i) if (a.can_update(i)) f.push_back(i); return f; }

	void one(const Algo & a, uint64_t sd, bool ws, const uint8_t * p, size_t n, int form, size_t len, unsigned how, const char * what, unsigned pattern) {
		Exact m(p, n);
		Obj o(a);
		o.make(sd, ws, static_cast<uint8_t>(how * 37 + n));
		if (!a.update(o.mem, form, m.p, n)) return;
		Out out(len, static_cast<uint8_t>(n));
		const char * fin = finish(o, out, how);
		auto e = expect(a, sd, p, n, len);
		check(a, out, e, what, FMT("len=%zu pattern=%s form=%s seed=%" PRIu64 "%s finish=%s outlen=%zu msg=%s", n, pattern_names[pattern], form_names[form], sd, ws ? "" : "(default)", fin, len, hexs(p, n).c_str()));
		rep.cas(key(hstr(a.name), n, pattern, form, sd, ws, len, how % 3, 1), n > 0);
		rep.count("bytes", n);
		if (n % 97 == 13 && rep.want_sample()) rep.sample("%s len=%zu pattern=%s form=%s -> %s", a.name, n, pattern_names[pattern], form_names[form], hexs(out.p(), len).c_str());
	}

	// ---- every length, several contents, several seeds, then random and power-of-two neighbourhoods
	void conform() {
		const unsigned nrand = static_cast<unsigned>(args.num("random", 60));
		const size_t maxrand = args.num("maxrandom", 20000);
		const size_t blocks = args.num("blocks", 4);
		const unsigned npat = static_cast<unsigned>(args.num("patterns", P_COUNT));
		for (auto * ap : algos) {
			const Algo & a = *ap;
			const size_t B = ref::block_size(a.spec);
			const size_t L = blocks * B + 40;
			auto forms = dyn_forms(a);
			unsigned c = 0;
			for (auto [sd, ws] : seeds_for(a, static_cast<unsigned>(args.num("seeds", 6)))) {
				for (unsigned pat = 0; pat < npat; ++pat) {
					if (ws && pat >= 3 && (pat + sd) % 3) continue;
					auto m = msg(L, pat, key(seed, pat));
					for (size_t n = 0; n <= L; ++n, ++c) one(a, sd, ws, m.data(), n, forms[(c + n / 7) % forms.size()], outlen(a, c), c, "digest", pat);
				}
			}
			if (a.is_xof) { // all built output lengths on lengths around the rate
				auto m = msg(3 * B, P_RANDOM, key(seed, 91));
				for (size_t n : {size_t(0), size_t(1), B - 9, B - 2, B - 1, B, B + 1, 2 * B - 1, 2 * B, 3 * B})
					for (unsigned k = 0; k < 23; ++k) one(a, 0, false, m.data(), n, forms[k % forms.size()], outlen(a, k), k, "digest", P_RANDOM);
			}
			Rng g(key(seed, hstr(a.name), 5));
			for (unsigned i = 0; i < nrand; ++i) {
				size_t n = i % 3 == 0 ? g.below(maxrand) : i % 3 == 1 ? B * g.in(1, maxrand / B) + g.below(3) - 1 : (size_t(1) << g.in(6, 16)) + g.below(5) - 2;
				unsigned pat = static_cast<unsigned>(g.below(P_COUNT));
				uint64_t sd = a.seeded ? (a.spec.fam == ref::Fam::xxh32 ? static_cast<uint32_t>(g.next()) : g.next()) : 0;
				auto m = msg(n, pat, g.next());
				one(a, sd, a.seeded, m.data(), n, forms[g.below(forms.size())], outlen(a, g.next()), static_cast<unsigned>(i), "digest", pat);
			}
			if (size_t big = args.num("big", 0)) {
				auto m = msg(big + 77, P_RANDOM, key(seed, 17));
				for (size_t n : {big, big + 77}) one(a, 0, false, m.data(), n, F_SPAN_BYTE, outlen(a, 0), 0, "digest-large", P_RANDOM);
			}
		}
	}

	// feeds pieces and checks size() on the way; returns false if the hasher misreports its size
	void feed(Obj & o, const uint8_t * p, const std::vector<size_t> & pieces, const std::vector<int> & forms, uint64_t fsel, size_t & off) {
		const Algo & a = *o.a;
		for (size_t i = 0; i < pieces.size(); ++i) {
			const size_t n = pieces[i];
			int form = forms[(fsel + i * 5) % forms.size()];
			if (!a.update(o.mem, form, p + off, n)) a.update(o.mem, F_SPAN_BYTE, p + off, n);
			off += n;
			uint64_t sz;
			if (a.size(o.mem, sz) && sz != off) rep.viol(std::string(a.name) + ":size", "size()=%" PRIu64 " after %zu bytes in %zu updates (last %zu)", sz, off, i + 1, n);
		}
	}
	static std::string pieces_str(const std::vector<size_t> & v) { std::string s; for (size_t i = 0; i < v.size() && i < 40; ++i) s += (i ? "," : "") + std::to_string(v[i]); if (v.size() > 40) s += ",..(" + std::to_string(v.size()) + ")"; return s; }

	void split_case(const Algo & a, uint64_t sd, const uint8_t * p, const std::vector<size_t> & pieces, const std::vector<int> & forms, uint64_t fsel, const std::vector<uint8_t> & e, unsigned how, uint64_t msgid) {
		Obj o(a);
		o.make(sd, a.seeded);
		size_t off = 0;
		feed(o, p, pieces, forms, fsel, off);
		Out out(e.size());
		const char * fin = finish(o, out, how);
		check(a, out, e, "split-digest", FMT("total=%zu pieces=%s forms from %" PRIu64 " seed=%" PRIu64 " %s", off, pieces_str(pieces).c_str(), fsel % forms.size(), sd, fin));
		uint64_t k = key(hstr(a.name), msgid, off, sd);
		for (size_t x : pieces) k = key(k, x);
		rep.cas(k, pieces.size() > 1);
		if (pieces.size() > 3 && rep.want_sample()) rep.sample("%s total=%zu pieces=%s -> %s", a.name, off, pieces_str(pieces).c_str(), hexs(out.p(), out.n).c_str());
	}

	void split() {
		const unsigned nrand = static_cast<unsigned>(args.num("random", 300));
		const bool dense3 = args.num("dense3", 1);
		const size_t step3 = args.num("step3", 3);
		for (auto * ap : algos) {
			const Algo & a = *ap;
			const size_t B = ref::block_size(a.spec);
			auto forms = dyn_forms(a);
			Rng g(key(seed, hstr(a.name), 6));
			const uint64_t sd = a.seeded ? (a.spec.fam == ref::Fam::xxh32 ? static_cast<uint32_t>(g.next()) : g.next()) : 0;
			const size_t len = outlen(a, 0);
			const size_t L = 4 * B + 64;
			auto m = msg(L, P_RANDOM, key(seed, 61));
			std::vector<std::vector<uint8_t>> tab;
			for (size_t n = 0; n <= L; ++n) tab.push_back(expect(a, sd, m.data(), n, len));
			// all two-way cuts
			const size_t n2 = 2 * B + 18;
			for (size_t n = 0; n <= n2; ++n) for (size_t k = 0; k <= n; ++k) split_case(a, sd, m.data(), {k, n - k}, forms, n + k, tab[n], static_cast<unsigned>(n), 1);
			// three-way cuts: any buffer fill, then any piece up to two blocks, then a short rest; with an empty piece in between
			if (dense3)
				for (size_t x = 0; x <= B; ++x)
					for (size_t y = x % step3; y <= 2 * B + 1; y += step3)
						for (size_t z : {size_t(0), size_t(1), B - 1, B}) {
							if (z && (x + y) % 4 != z % 4) continue;
							const size_t n = x + y + z;
							split_case(a, sd, m.data(), {x, 0, y, z}, forms, x * 3 + y, tab[n], static_cast<unsigned>(x), 1);
						}
			// byte at a time, fixed size pieces
			for (size_t piece : {size_t(1), size_t(2), size_t(3), size_t(4), size_t(5), size_t(7), size_t(8), size_t(9), size_t(13), B - 1, B, B + 1, 2 * B - 1, 2 * B})
				for (size_t n : {B - 1, B, B + 1, 3 * B + 5, 4 * B}) {
					std::vector<size_t> pc;
					for (size_t o = 0; o < n; o += piece) pc.push_back(std::min(piece, n - o));
					split_case(a, sd, m.data(), pc, forms, piece, tab[n], 0, 1);
				}
			// random
			for (unsigned i = 0; i < nrand; ++i) {
				const bool large = i % 10 == 9;
				const size_t n = large ? g.in(1, 300000) : g.below(20 * B);
				unsigned pat = static_cast<unsigned>(g.below(P_COUNT));
				const uint64_t mid = g.next();
				auto mm = msg(n, pat, mid);
				auto e = expect(a, sd, mm.data(), n, len);
				std::vector<size_t> pc;
				for (size_t left = n; left;) {
					size_t p;
					switch (g.below(6)) {
						case 0: p = 0; break;
						case 1: p = g.in(1, 4); break;
						case 2: p = g.below(B + 1); break;
						case 3: p = B * g.in(1, 4) + g.below(3) - 1; break;
						case 4: p = large ? g.in(1, 100000) : g.below(3 * B); break;
						default: p = large ? 65536 * g.in(0, 3) + g.below(3) : B - 1 + g.below(3); break;
					}
					p = std::min(p, left);
					pc.push_back(p);
					left -= p;
				}
				if (g.chance(1, 3)) pc.insert(pc.begin() + static_cast<long>(g.below(pc.size() + 1)), 0);
				split_case(a, sd, mm.data(), pc, forms, g.next() >> 8, e, i, mid);
			}
			// xxhash: one-shot helper on a started hasher continues it
			for (size_t n = 0; n <= 2 * B + 5; ++n) for (size_t k = 0; k <= n; ++k) {
				Obj o(a); o.make(sd, a.seeded);
				a.update(o.mem, F_SPAN_CHAR, m.data(), k);
				Out out(len);
				if (a.is_xof || !a.update_and_final(o.mem, F_SPAN_CHAR, m.data() + k, n - k, out.p())) goto next;
				check(a, out, tab[n], "update_and_final", FMT("total=%zu first=%zu", n, k));
				rep.cas(key(hstr(a.name), n, k, 778), n > 0);
			}
			next:;
		}
	}

	// ---- one message in very many updates (C06)
	void many() {
		const size_t n = args.num("updates", 70001);
		for (auto * ap : algos) {
			const Algo & a = *ap;
			const size_t B = ref::block_size(a.spec), len = outlen(a, 0);
			Rng g(key(seed, hstr(a.name), 19));
			for (unsigned kind = 0; kind < 3; ++kind) {
				auto m = msg(n * 3 + 4 * B, P_RANDOM, g.next());
				Obj o(a);
				const uint64_t sd = a.seeded ? static_cast<uint32_t>(g.next()) : 0;
				o.make(sd, a.seeded);
				size_t off = 0;
				uint64_t bad = 0, k = 0;
				for (size_t i = 0; i < n; ++i) {
					const size_t piece = kind == 0 ? 1 : kind == 1 ? g.below(4) : (i % 1000 == 0 ? g.below(B + 2) : g.below(2));
					if (off + piece > m.size()) break;
					a.update(o.mem, kind == 1 && i % 2 ? F_SPAN_CHAR : F_SPAN_BYTE, m.data() + off, piece);
					off += piece; k = key(k, piece);
					uint64_t sz;
					if (a.size(o.mem, sz) && sz != off && !bad) { bad = 1; rep.viol(std::string(a.name) + ":size", "size()=%" PRIu64 " after %zu bytes in %zu updates", sz, off, i + 1); }
				}
				Out out(len);
				finish(o, out, kind);
				check(a, out, expect(a, sd, m.data(), off, len), "many-updates", FMT("%zu updates, %zu bytes, kind %u", n, off, kind));
				rep.count("updates", n);
				rep.cas(key(hstr(a.name), k, off), true);
			}
			rep.sample("%s: %zu updates of one message, three kinds of pieces", a.name, n);
		}
	}

	// ---- histories over a pool of live hashers (C07)
	struct Slot { Obj o; std::vector<uint8_t> bytes; uint64_t sd; explicit Slot(const Algo & a): o(a), sd(0) { } };
	void history() {
		const unsigned rounds = static_cast<unsigned>(args.num("rounds", 60)), ops = static_cast<unsigned>(args.num("ops", 250));
		// fork at every byte position of the first two blocks, continue both sides differently
		for (auto * ap : algos) {
			const Algo & a = *ap;
			const size_t B = ref::block_size(a.spec), len = outlen(a, 0);
			auto m = msg(5 * B, P_RANDOM, key(seed, 31)), m2 = msg(5 * B, P_FF, 1);
			for (size_t k = 0; k <= 2 * B + 2; ++k) for (unsigned kind = 0; kind < 4; ++kind) {
				if (kind == 2 && k % 2) continue;
				Obj x(a), y(a);
				const uint64_t sd = a.seeded ? 12345 : 0;
				x.make(sd, a.seeded);
				a.update(x.mem, F_SPAN_BYTE, m.data(), k);
				if (kind == 0) y.copy_of(x);
				else if (kind == 1) { y.move_of(x); x.copy_of(y); } // a moved-from hasher is only replaced
				else if (kind == 2) { y.make(99, a.seeded); a.update(y.mem, F_SPAN_BYTE, m2.data(), B + 3); if (!a.assign(y.mem, x.mem)) continue; }
				else { Obj t(a); t.copy_of(x, 0xff); y.copy_of(t, 0x00); a.update(t.mem, F_SPAN_BYTE, m2.data(), 3); }
				const size_t ra = (k * 7) % (B + 20), rb = (k * 11) % (2 * B + 3);
				std::vector<uint8_t> wa(m.begin(), m.begin() + static_cast<long>(k)), wb = wa;
				wa.insert(wa.end(), m2.begin(), m2.begin() + static_cast<long>(ra));
				wb.insert(wb.end(), m.begin() + static_cast<long>(k), m.begin() + static_cast<long>(k + rb));
				a.update(x.mem, F_SPAN_CHAR, m2.data(), ra);
				Out ox(len), oy(len), oz(len);
				// finishing the first before the second continues
				if (k % 2) finish(x, ox, static_cast<unsigned>(k));
				if (k % 3 == 0) x.reset();
				a.update(y.mem, F_SPAN_BYTE, m.data() + k, rb / 2);
				a.update(y.mem, F_SPAN_BYTE, m.data() + k + rb / 2, rb - rb / 2);
				finish(y, oy, static_cast<unsigned>(k / 3));
				if (!(k % 2) && x.mem) { finish(x, ox, 0); }
				auto ctx = FMT("fork at %zu kind=%u then +%zu / +%zu", k, kind, ra, rb);
				if (k % 2 || k % 3) check(a, ox, expect(a, sd, wa.data(), wa.size(), len), "fork-original", ctx);
				check(a, oy, expect(a, sd, wb.data(), wb.size(), len), "fork-copy", ctx);
				rep.cas(key(hstr(a.name), k, kind, 41));
			}
		}
		Rng g(key(seed, 7));
		for (unsigned r = 0; r < rounds; ++r) {
			std::vector<Slot *> pool;
			std::string log;
			uint64_t hist = 0;
			auto add = [&](const std::string & s) { if (log.size() < 300) log += s + ";"; };
			auto verify = [&](Slot & s, Out & out, const char * what, size_t len) {
				check(*s.o.a, out, expect(*s.o.a, s.sd, s.bytes.data(), s.bytes.size(), len), what, FMT("round=%u live=%zu len=%zu log=%s", r, pool.size(), s.bytes.size(), log.c_str()));
				rep.cas(key(seed, r, hist, hstr(s.o.a->name), s.bytes.size()), true);
			};
			for (unsigned i = 0; i < ops; ++i) {
				const unsigned op = static_cast<unsigned>(g.below(12));
				hist = key(hist, op);
				if (pool.size() < 3 || (op == 0 && pool.size() < 24)) {
					auto * s = new Slot(*algos[g.below(algos.size())]);
					s->sd = s->o.a->seeded ? static_cast<uint32_t>(g.next()) : 0;
					s->o.make(s->sd, s->o.a->seeded, static_cast<uint8_t>(g.next()));
					pool.push_back(s);
					add(std::string("new ") + s->o.a->name);
					continue;
				}
				const size_t ix = g.below(pool.size());
				Slot & s = *pool[ix];
				const Algo & a = *s.o.a;
				const size_t B = ref::block_size(a.spec);
				rep.count("ops");
				if (op <= 5) {
					const size_t n = g.chance(1, 8) ? 0 : g.chance(1, 3) ? g.below(6) : g.below(2 * B + 9);
					auto m = msg(n, static_cast<unsigned>(g.below(P_COUNT)), g.next());
					a.update(s.o.mem, g.chance(1, 2) ? F_SPAN_BYTE : F_SPAN_CHAR, m.data(), n);
					s.bytes.insert(s.bytes.end(), m.begin(), m.end());
					add("upd" + std::to_string(ix) + "+" + std::to_string(n));
				} else if (op <= 7) { // copy
					auto * c = new Slot(a);
					c->sd = s.sd; c->bytes = s.bytes;
					c->o.copy_of(s.o, static_cast<uint8_t>(g.next()));
					pool.push_back(c);
					add("copy" + std::to_string(ix));
				} else if (op == 8) { // move, the source is dropped
					auto * c = new Slot(a);
					c->sd = s.sd; c->bytes = std::move(s.bytes);
					c->o.move_of(s.o);
					delete pool[ix];
					pool[ix] = c;
					add("move" + std::to_string(ix));
				} else if (op == 9) { // assign from another of the same kind
					for (auto * o : pool) if (o != &s && o->o.a == s.o.a && a.assign(s.o.mem, o->o.mem)) { s.bytes = o->bytes; s.sd = o->sd; add("assign" + std::to_string(ix)); break; }
				} else { // finish
					const size_t len = outlen(a, g.next(), 200);
					Out out(len);
					if (!a.is_xof && a.final_const(s.o.mem, out.p())) {
						verify(s, out, "repeatable-final", len);
						Out again(len);
						a.final_const(s.o.mem, again.p());
						verify(s, again, "repeatable-final", len);
						if (g.chance(2, 3)) continue; // keep using it
					} else {
						finish(s.o, out, static_cast<unsigned>(g.below(2)));
						verify(s, out, "interleaved", len);
					}
					delete &s;
					pool.erase(pool.begin() + static_cast<long>(ix));
					add("fin" + std::to_string(ix));
				}
			}
			if (r == 0) rep.sample("history: %s", log.c_str());
			for (auto * s : pool) { const size_t len = outlen(*s->o.a, 0); Out out(len); finish(s->o, out, 0); verify(*s, out, "end", len); delete s; }
			rep.count("histories");
		}
	}

	// ---- input forms (C19)
	void forms() {
		const unsigned nrand = static_cast<unsigned>(args.num("random", 200));
		for (auto * ap : algos) {
			const Algo & a = *ap;
			const size_t B = ref::block_size(a.spec);
			const size_t L = 3 * B + 20;
			const size_t len = outlen(a, 0);
			auto fs = forms_of(a);
			for (int f : fs) rep.count(std::string("form ") + form_names[f]);
			for (auto & want : args.list("expect")) { // forms which must be accepted
				int f = atoi(want.c_str());
				if (std::find(fs.begin(), fs.end(), f) == fs.end()) rep.viol(std::string(a.name) + ":form-not-accepted:" + form_names[f], "update(%s) no longer compiles", form_names[f]);
			}
			std::vector<size_t> lens;
			for (size_t n = 0; n <= L; ++n) lens.push_back(n);
			for (unsigned pat : {P_RANDOM, P_HIGH, P_ZERO, P_FF, P_RAMP}) {
				auto m = msg(L, pat, key(seed, pat, 9));
				for (size_t n : lens) {
					auto e = expect(a, 0, m.data(), n, len);
					for (int f : fs) {
						Exact x(m.data(), n);
						Obj o(a); o.make();
						if (!a.update(o.mem, f, x.p, n)) continue;
						Out out(len);
						const char * fin = finish(o, out, static_cast<unsigned>(n + static_cast<size_t>(f)));
						check(a, out, e, std::string("form ") + form_names[f], FMT("len=%zu pattern=%s %s", n, pattern_names[pat], fin));
						rep.cas(key(hstr(a.name), f, n, pat, 2), n > 0);
						// after a partial block
						if (n >= 1) {
							const size_t k = (n * 13 + pat) % B;
							std::vector<uint8_t> w(m.begin(), m.begin() + static_cast<long>(k)); w.insert(w.end(), x.p, x.p + n);
							Obj q(a); q.make(); a.update(q.mem, F_SPAN_BYTE, m.data(), k); a.update(q.mem, f, x.p, n);
							Out o2(len); finish(q, o2, 0);
							check(a, o2, expect(a, 0, w.data(), w.size(), len), std::string("form ") + form_names[f] + " after partial", FMT("first=%zu len=%zu pattern=%s", k, n, pattern_names[pat]));
						}
						for (int ws = 0; ws <= (a.seeded ? 1 : 0); ++ws) {
							Out o3(len);
							const uint64_t sd = ws ? key(n, pat) & 0xffffffffu : 0;
							if (a.oneshot(f, sd, ws, x.p, n, o3.p())) {
								check(a, o3, ws ? expect(a, sd, m.data(), n, len) : e, std::string("simple<> ") + form_names[f], FMT("len=%zu pattern=%s seed=%" PRIu64, n, pattern_names[pat], sd));
								rep.cas(key(hstr(a.name), f, n, pat, ws, 3), n > 0);
							}
							Obj q(a); q.make(sd, ws);
							Out o4(len);
							if (!a.is_xof && a.update_and_final(q.mem, f, x.p, n, o4.p())) check(a, o4, ws ? expect(a, sd, m.data(), n, len) : e, std::string("update_and_final ") + form_names[f], FMT("len=%zu pattern=%s", n, pattern_names[pat]));
						}
					}
				}
			}
			// random mixes of forms; sized forms get one of their sizes
			Rng g(key(seed, hstr(a.name), 12));
			auto sized = args.list("sizes");
			for (unsigned i = 0; i < nrand; ++i) {
				std::vector<uint8_t> w; std::string log;
				Obj o(a); o.make();
				for (unsigned k = 0, K = static_cast<unsigned>(g.in(2, 9)); k < K; ++k) {
					int f = fs[g.below(fs.size())];
					size_t n = (f >= F_ARRAY_BYTE && f <= F_TAGGED_VALUE) && !sized.empty() ? strtoull(sized[g.below(sized.size())].c_str(), nullptr, 10) : g.below(2 * B);
					auto m = msg(n, static_cast<unsigned>(g.below(P_COUNT)), g.next());
					if (!a.update(o.mem, f, m.data(), n)) continue;
					w.insert(w.end(), m.begin(), m.end());
					log += std::string(form_names[f]) + ":" + std::to_string(n) + " ";
				}
				Out out(len);
				finish(o, out, i);
				check(a, out, expect(a, 0, w.data(), w.size(), len), "form mix", FMT("%s", log.c_str()));
				rep.cas(key(hstr(a.name), i, hstr(log)), true);
				if (i == 3) rep.sample("%s: %s-> %s", a.name, log.c_str(), hexs(out.p(), len).c_str());
			}
		}
	}

	// the same messages again and again: what was hashed before, and how often, must not matter
	void repeated(const Algo & a) {
		const uint64_t times = args.num("repeat", 20000);
		const size_t B = ref::block_size(a.spec);
		struct Case { std::vector<uint8_t> m; uint64_t sd; std::vector<uint8_t> e; };
		std::vector<Case> cases;
		for (size_t n : {size_t(0), size_t(1), size_t(7), B / 2, B - 9, B - 8, B - 2, B - 1, B, B + 1, B + 33, 2 * B - 1, 2 * B, 3 * B - 5, size_t(3), B > 17 ? B - 17 : 5, B - 5}) {
			Case x{msg(n, P_RANDOM, key(seed, n, 21)), a.seeded ? key(n, 3) & 0xffffffff : 0, {}};
			x.e = expect(a, x.sd, x.m.data(), n, outlen(a, 0));
			cases.push_back(std::move(x));
		}
		Rng g(key(seed, hstr(a.name), 22));
		Obj o(a);
		for (uint64_t i = 0; i < times; ++i) {
			const Case & x = cases[g.below(cases.size())];
			o.make(x.sd, a.seeded, static_cast<uint8_t>(i));
			const size_t k = x.m.empty() ? 0 : g.below(x.m.size() + 1);
			if (k) a.update(o.mem, F_SPAN_BYTE, x.m.data(), k);
			a.update(o.mem, F_SPAN_CHAR, x.m.data() + k, x.m.size() - k);
			Out out(x.e.size());
			finish(o, out, static_cast<unsigned>(g.below(3)));
			check(a, out, x.e, "impure:repetition", FMT("digest number %" PRIu64 " of this process, %zu bytes, split at %zu", i + 1, x.m.size(), k));
			rep.evals++;
		}
		rep.count("repetitions", times);
	}

	// ---- purity (C26): the surroundings must not matter and must not change
	void purity() {
		const unsigned nrand = static_cast<unsigned>(args.num("random", 150));
		std::vector<uint8_t> arena(1 << 16);
		for (auto * ap : algos) {
			const Algo & a = *ap;
			const size_t B = ref::block_size(a.spec);
			Rng g(key(seed, hstr(a.name), 14));
			const size_t L = 2 * B + 10;
			auto m = msg(L, P_RANDOM, key(seed, 15));
			std::set<std::pair<size_t, unsigned>> seen;
			for (size_t n = 0; n <= L + nrand; ++n) {
				const bool rnd = n > L;
				const size_t len = outlen(a, n, 500);
				const size_t nn = rnd ? g.below(20 * B) : n;
				auto mm = rnd ? msg(nn, static_cast<unsigned>(g.below(P_COUNT)), g.next()) : std::vector<uint8_t>(m.begin(), m.begin() + static_cast<long>(nn));
				const uint64_t sd = a.seeded ? key(n) & 0xffffffff : 0;
				auto e = expect(a, sd, mm.data(), nn, len);
				for (unsigned rep_ = 0; rep_ < 6; ++rep_) {
					const size_t align = rnd ? g.below(64) : (n * 5 + rep_ * 11) % 64;
					const uint8_t around = static_cast<uint8_t>(rep_ == 0 ? 0 : rep_ == 1 ? 0xff : g.next());
					const uint8_t dirt = static_cast<uint8_t>(rep_ == 0 ? 0xff : rep_ == 1 ? 0x00 : g.next());
					const size_t base = 4096 + align;
					memset(arena.data(), around, arena.size());
					if (nn) memcpy(arena.data() + base, mm.data(), nn);
					std::vector<uint8_t> before = arena;
					Obj o(a);
					void * raw = o.raw(dirt);
					if (rep_ >= 3) { Rng d(g.next()); for (size_t i = 0; i < a.obj_size; ++i) static_cast<uint8_t *>(raw)[i] = static_cast<uint8_t>(d.next()); }
					a.construct(raw, sd, a.seeded);
					const size_t k = rep_ % 2 ? (nn ? g.below(nn + 1) : 0) : 0;
					const int f = rep_ % 3 == 0 ? F_SPAN_BYTE : rep_ % 3 == 1 ? F_SPAN_CHAR : F_SV;
					if (k) a.update(o.mem, f, arena.data() + base, k);
					if (rep_ == 4) { // something else hashed in between
						const Algo & b = *algos[g.below(algos.size())];
						Obj x(b); x.make(); auto junk = msg(g.below(300), P_RANDOM, g.next()); b.update(x.mem, F_SPAN_BYTE, junk.data(), junk.size()); Out t(outlen(b, 0)); finish(x, t, 0);
					}
					a.update(o.mem, f, arena.data() + base + k, nn - k);
					// the digest may go to any address
					std::vector<uint8_t> dst(len + 200, around);
					const size_t doff = 64 + (align % 9);
					if (rep_ % 2 == 1 && !a.is_xof && a.final_span(o.mem, dst.data() + doff)) { }
					else if (a.is_xof) a.final_xof(o.mem, dst.data() + doff, len);
					else a.final_value(o.mem, dst.data() + doff);
					auto ctx = FMT("len=%zu align=%zu around=%02x dirt=%02x split=%zu variant=%u", nn, align, around, dirt, k, rep_);
					if (memcmp(dst.data() + doff, e.data(), len) != 0) rep.viol(std::string(a.name) + ":impure", "%s got=%s expected=%s", ctx().c_str(), hexs(dst.data() + doff, len).c_str(), hexs(e.data(), len).c_str());
					for (size_t i = 0; i < dst.size(); ++i) if ((i < doff || i >= doff + len) && dst[i] != around) { rep.viol(std::string(a.name) + ":wrote-outside-digest", "%s at %td", ctx().c_str(), static_cast<ptrdiff_t>(i) - static_cast<ptrdiff_t>(doff)); break; }
					if (arena != before) rep.viol(std::string(a.name) + ":modified-input", "%s", ctx().c_str());
					rep.cas(key(hstr(a.name), nn, align, around, dirt, k, rep_), nn > 0);
					seen.insert({align, around});
				}
			}
			rep.count("alignment/surrounding pairs", seen.size());
			repeated(a);
		}
		rep.sample("dirty memory 00/ff/random, 64 alignments, neighbours 00/ff/random");
	}

	int run() {
		for (auto & mode : args.list("mode")) {
			if (mode == "conform") conform();
			else if (mode == "split") split();
			else if (mode == "many") many();
			else if (mode == "history") history();
			else if (mode == "forms") forms();
			else if (mode == "purity") purity();
			else { printf("unknown mode\n"); return 3; }
		}
		return rep.done();
	}
};

int main(int argc, char ** argv) { return W(argc, argv).run(); }
