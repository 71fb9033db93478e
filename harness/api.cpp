#include "api.hpp"
#include <algorithm>
#include <cstring>
const char * const form_names[F_COUNT] = {
	"span<byte>", "span<uchar>", "span<char>", "span<schar>", "span<char8_t>", "string_view", "u8string_view", "string", "u8string", "vector<byte>", "vector<uchar>", "vector<char>",
	"array<byte>", "array<uchar>", "array<char>", "char literal", "char8_t literal", "byte[]", "uchar[]", "schar[]",
	"span<byte,N>", "span<uchar,N>", "span<char,N>", "hash_value", "tagged value", "mutable span<byte>", "mutable span<uchar>", "fixed_string", "vector<schar>", "vector<char8_t>"};
static std::vector<const Algo *> & reg() { static std::vector<const Algo *> v; return v; }
void register_algo(const Algo & a) { reg().push_back(&a); }
const std::vector<const Algo *> & all_algos() {
	std::sort(reg().begin(), reg().end(), [](auto a, auto b) { return strcmp(a->name, b->name) < 0; });
	return reg();
}
const Algo * find_algo(const std::string & n) { for (auto * a : reg()) if (n == a->name) return a; return nullptr; }
