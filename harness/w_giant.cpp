// Messages beyond 2^29, 2^31 and 2^32 bytes against golden digests (tools/gen_golden.py).
// The message is one 16 MiB random block repeated; it is mapped many times, so it needs 16 MiB only.
#include "core.hpp"
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
using namespace rt;

constexpr size_t BLOCK = size_t(16) << 20;
struct Giant {
	uint8_t * p; size_t n;
	explicit Giant(size_t blocks): n(blocks * BLOCK) {
		int fd = memfd_create("giant", 0);
		if (fd < 0 || ftruncate(fd, BLOCK)) { perror("memfd"); exit(3); }
		auto * w = static_cast<uint8_t *>(mmap(nullptr, BLOCK, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		if (w == MAP_FAILED) { perror("mmap"); exit(3); }
		fill(w, BLOCK, P_RANDOM, 20240607);
		munmap(w, BLOCK);
		p = static_cast<uint8_t *>(mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (p == MAP_FAILED) { perror("mmap"); exit(3); }
		for (size_t i = 0; i < blocks; ++i) if (mmap(p + i * BLOCK, BLOCK, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
	}
};

int main(int argc, char ** argv) {
	Core c(argc, argv);
	if (c.args.num("dump", 0)) { // for the generator of golden digests
		std::vector<uint8_t> b(BLOCK); fill(b.data(), BLOCK, P_RANDOM, 20240607); fwrite(b.data(), 1, BLOCK, stdout); return 0;
	}
	std::map<std::pair<std::string, uint64_t>, std::string> golden;
	{ std::ifstream f(c.args.str("golden", "")); std::string a, h; uint64_t n; while (f >> a >> n >> h) golden[{a, n}] = h; }
	if (golden.empty()) { printf("no golden digests\n"); return 3; }
	const uint64_t limit = c.args.num("limit", ~0ull);
	const auto passes = c.args.list("passes");
	Giant g(260);
	for (auto * ap : c.algos) {
		const Algo & a = *ap;
		std::vector<uint64_t> totals;
		for (auto & [k, v] : golden) if (k.first == a.name && k.second <= limit) totals.push_back(k.second);
		std::sort(totals.begin(), totals.end());
		if (totals.empty()) { printf("no golden digest for %s\n", a.name); return 3; }
		if (Core::self) totals = {totals.back()};
		const size_t len = a.is_xof ? 64 : ref::digest_size(a.spec);
		if (Core::self) { // compare with one update of the whole instead
			Obj o(a); o.make(); a.update(o.mem, F_SPAN_BYTE, g.p, totals[0]);
			Out out(len); Core::finish(o, out, 0);
			golden[{a.name, totals[0]}] = hex(out.p(), len);
		}
		auto verify = [&](const Obj & from, uint64_t total, const char * pass) {
			Obj o(a); o.copy_of(from);
			Out out(len);
			Core::finish(o, out, static_cast<unsigned>(total));
			const std::string got = hex(out.p(), len), want = golden[{a.name, total}];
			if (got != want) c.rep.viol(std::string(a.name) + ":giant", "total=%" PRIu64 " pass=%s got=%s expected=%s", total, pass, got.c_str(), want.c_str());
			uint64_t sz;
			if (a.size(from.mem, sz) && sz != total) c.rep.viol(std::string(a.name) + ":giant-size", "size()=%" PRIu64 " after %" PRIu64 " bytes", sz, total);
			c.rep.cas(key(hstr(a.name), total, hstr(pass)));
			c.rep.sample("%s total=%" PRIu64 " pass=%s -> %s", a.name, total, pass, hexs(out.p(), len).c_str());
		};
		for (auto & pass : passes) {
			if (pass == "one") { // a single update
				const uint64_t t = totals.back();
				Obj o(a); o.make();
				a.update(o.mem, F_SPAN_BYTE, g.p, t);
				verify(o, t, "one");
			} else if (pass == "two") { // unaligned start, then one huge update
				const uint64_t t = totals.back();
				Obj o(a); o.make();
				a.update(o.mem, F_SPAN_CHAR, g.p, 61);
				a.update(o.mem, F_SPAN_CHAR, g.p + 61, t - 61);
				verify(o, t, "two");
			} else if (pass == "steps") { // stops at every golden length
				Obj o(a); o.make();
				uint64_t off = 0;
				for (uint64_t t : totals) { a.update(o.mem, F_SPAN_BYTE, g.p + off, t - off); off = t; verify(o, t, "steps"); }
			} else if (pass == "chunks") { // many updates of 1 MiB - 1
				Obj o(a); o.make();
				uint64_t off = 0;
				for (uint64_t t : totals) { while (off < t) { size_t k = std::min<uint64_t>(t - off, (1u << 20) - 1); a.update(o.mem, F_SPAN_BYTE, g.p + off, k); off += k; } verify(o, t, "chunks"); }
			} else if (pass == "oneshot") {
				const uint64_t t = totals.back();
				Out out(len);
				if (!a.is_xof && a.oneshot(F_SPAN_BYTE, 0, false, g.p, t, out.p())) {
					const std::string got = hex(out.p(), len), want = golden[{a.name, t}];
					if (got != want) c.rep.viol(std::string(a.name) + ":giant-oneshot", "total=%" PRIu64 " got=%s expected=%s", t, got.c_str(), want.c_str());
					c.rep.cas(key(hstr(a.name), t, 5));
				}
			}
		}
	}
	return c.rep.done();
}
