#pragma once
#include "api.hpp"
#include "rt.hpp"
#include <algorithm>
#include <functional>

// one live hasher in its own exactly sized heap block, which holds garbage before construction
struct Obj {
	const Algo * a = nullptr;
	void * mem = nullptr;
	explicit Obj(const Algo & algo): a(&algo) { }
	Obj(const Obj &) = delete;
	~Obj() { reset(); }
	void * raw(uint8_t dirt) {
		reset();
		const size_t sz = (a->obj_size + a->obj_align - 1) / a->obj_align * a->obj_align;
		mem = ::aligned_alloc(a->obj_align < 16 ? 16 : a->obj_align, sz);
		memset(mem, dirt, sz);
		return mem;
	}
	void make(uint64_t seed = 0, bool with_seed = false, uint8_t dirt = 0xa7) { a->construct(raw(dirt), seed, with_seed); }
	void copy_of(const Obj & o, uint8_t dirt = 0x5b) { a->copy(raw(dirt), o.mem); }
	void move_of(Obj & o, uint8_t dirt = 0x5b) { a->move(raw(dirt), o.mem); }
	void reset() { if (mem) { a->destroy(mem); ::free(mem); mem = nullptr; } }
};

// exactly sized heap copy, so red zones sit directly at both ends
struct Exact {
	uint8_t * p; size_t n;
	Exact(const uint8_t * s, size_t len): p(static_cast<uint8_t *>(::malloc(len ? len : 1))), n(len) { if (n) memcpy(p, s, n); }
	Exact(const Exact &) = delete;
	~Exact() { ::free(p); }
};

struct Out { // digest destination with canaries
	std::vector<uint8_t> v; size_t n;
	explicit Out(size_t len, uint8_t dirt = 0xc3): v(len + 64, 0xee), n(len) { memset(v.data() + 32, dirt, n); }
	uint8_t * p() { return v.data() + 32; }
	bool intact() const { for (size_t i = 0; i < 32; ++i) if (v[i] != 0xee || v[32 + n + i] != 0xee) return false; return true; }
};

struct Core {
	rt::Args args;
	rt::Report rep;
	uint64_t seed;
	std::vector<const Algo *> algos;

	Core(int argc, char ** argv): args(argc, argv), seed(args.num("seed", 1)) {
		self = args.num("self", 0);
		auto l = args.list("algos");
		if (l.empty()) algos = all_algos();
		else for (auto & n : l) {
			bool any = false;
			for (auto * a : all_algos()) if (n == a->name || (n.back() == '*' && std::string(a->name).compare(0, n.size() - 1, n, 0, n.size() - 1) == 0)) { algos.push_back(a); any = true; }
			if (!any) { printf("no algorithm %s\n", n.c_str()); exit(3); }
		}
	}

	static size_t outlen(const Algo & a, uint64_t pick, size_t limit = 500) {
		if (!a.is_xof) return ref::digest_size(a.spec);
		static const size_t l[] = {32, 64, 1, 7, 9, 168, 136, 200, 500, 2, 8, 16, 28, 63, 128, 135, 137, 167, 169, 272, 273, 336, 337};
		for (;; ++pick) { size_t v = l[pick % std::size(l)]; if (v <= limit) return v; }
	}
	// what the digest must be: by the reference, or (--self) what the library itself gives for the
	// whole message in one plain update of a fresh hasher, where the property only relates digests to each other
	static inline bool self = false;
	static std::vector<uint8_t> expect(const Algo & a, uint64_t sd, const uint8_t * p, size_t n, size_t len) {
		std::vector<uint8_t> v(len);
		if (self) {
			Obj o(a);
			o.make(sd, a.seeded, 0);
			a.update(o.mem, F_SPAN_BYTE, p, n);
			if (a.is_xof) { if (!a.final_xof(o.mem, v.data(), len)) { printf("xof length %zu not built\n", len); exit(3); } } else a.final_value(o.mem, v.data());
			return v;
		}
		ref::digest(a.spec, sd, p, n, v.data(), len);
		return v;
	}
	// finish in one of the available ways
	static const char * finish(const Obj & o, Out & out, unsigned how) {
		if (o.a->is_xof) { if (!o.a->final_xof(o.mem, out.p(), out.n)) { printf("xof length %zu not built\n", out.n); exit(3); } return "final<N>()"; }
		if (how % 3 == 1 && o.a->final_span(o.mem, out.p())) return "final(span)";
		if (how % 3 == 2 && o.a->final_const(o.mem, out.p())) return "const final()";
		o.a->final_value(o.mem, out.p());
		return "final()";
	}
	void check(const Algo & a, Out & out, const std::vector<uint8_t> & e, const std::string & what, const std::function<std::string()> & ctx) {
		if (memcmp(out.p(), e.data(), out.n) != 0)
			rep.viol(std::string(a.name) + ":" + what, "%s got=%s expected=%s", ctx().c_str(), rt::hexs(out.p(), out.n).c_str(), rt::hexs(e.data(), e.size()).c_str());
		if (!out.intact()) rep.viol(std::string(a.name) + ":" + what + ":wrote-outside-digest", "%s", ctx().c_str());
	}
};

#define FMT(...) [&] { char b_[512]; snprintf(b_, sizeof b_, __VA_ARGS__); return std::string(b_); }
