// Runs all linked uses of headers (C21).
#include "h_use.hpp"
#include <cstdio>
#include <map>
extern const std::byte blob[512];
static std::map<std::string, void (*)(std::string &)> & uses() { static std::map<std::string, void (*)(std::string &)> m; return m; }
bool add_use(const char * name, void (*f)(std::string &)) { uses()[name] = f; return true; }
static constexpr std::array<std::byte, 512> make() { std::array<std::byte, 512> a{}; unsigned s = 1; for (auto & b : a) { s = s * 1664525u + 1013904223u; b = static_cast<std::byte>(s >> 24); } return a; }
#define B8(i) made[i], made[i + 1], made[i + 2], made[i + 3], made[i + 4], made[i + 5], made[i + 6], made[i + 7]
#define B64(i) B8(i), B8(i + 8), B8(i + 16), B8(i + 24), B8(i + 32), B8(i + 40), B8(i + 48), B8(i + 56)
static constexpr auto made = make();
const std::byte blob[512] = {B64(0), B64(64), B64(128), B64(192), B64(256), B64(320), B64(384), B64(448)};
int main() {
	unsigned long n = 0;
	for (auto & [name, f] : uses()) { std::string r; f(r); printf("T\t%s\t%s\n", name.c_str(), r.c_str()); ++n; }
	printf("E\t%lu\t%lu\t0\nEND\n", n, n);
}
