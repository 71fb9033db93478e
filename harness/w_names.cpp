// Encoding names in format specifications (C14).
#include "core.hpp"
#include <cthash/cthash.hpp>
#include <format>
#include <set>
using namespace rt;

struct tag_default { static constexpr size_t digest_length = 7; using encoding = cthash::encoding::base32; };
static Report rep;

static std::map<std::string, unsigned> names; // spelled name -> index into ref::encodings
static const std::vector<uint8_t> content = {0x00, 0xff, 0x10, 0xa5, 0xfb, 0xef, 0xbe};

// the text the named encoding gives when it is used directly
static std::string want_of(unsigned ix) {
	std::string r; unsigned i = 0;
	auto one = [&]<typename E>(E) { if (i++ == ix) for (char c : content | cthash::encode_to<E>) r += c; };
	using namespace cthash::encoding;
	one(base64{}); one(base64_no_padding{}); one(base64url{}); one(base32{}); one(base32_no_padding{}); one(z_base32{}); one(base16{}); one(base16_uppercase{}); one(base8{}); one(base4{}); one(base2{});
	return r;
}

template <typename V, typename CharT> struct Via {
	V v;
	unsigned default_ix;
	const char * what;
	Via(unsigned d, const char * w): default_ix(d), what(w) { memcpy(v.data(), content.data(), content.size()); }

	// nullopt: rejected
	std::optional<std::string> format(const std::basic_string<CharT> & spec) const {
		try {
			std::basic_string<CharT> f;
			f += CharT('{'); f += CharT(':'); f += spec; f += CharT('}'); f += CharT('!');
			std::basic_string<CharT> r;
			if constexpr (sizeof(CharT) == 1) r = std::vformat(f, std::make_format_args(v)); else r = std::vformat(f, std::make_wformat_args(v));
			std::string n;
			for (CharT c : r) n += static_cast<char>(c);
			return n;
		} catch (const std::exception &) { return std::nullopt; }
	}
	static std::string show(const std::basic_string<CharT> & s) { std::string r; for (CharT c : s) { char x[16]; const auto u = static_cast<uint32_t>(static_cast<std::make_unsigned_t<CharT>>(c)); if (u >= 32 && u < 127) r += static_cast<char>(u); else { snprintf(x, sizeof x, "\\x{%x}", u); r += x; } } return r; }

	void spec(const std::basic_string<CharT> & s) const {
		// a closing brace ends the specification
		if (s.find(CharT('}')) != s.npos || s.find(CharT('{')) != s.npos) return;
		std::string n; bool narrowable = true;
		for (CharT c : s) { if (static_cast<std::make_unsigned_t<CharT>>(c) > 126) narrowable = false; n += static_cast<char>(c); }
		auto it = narrowable ? names.find(n) : names.end();
		const bool valid = it != names.end() || s.empty();
		const auto got = format(s);
		rep.cas(key(hstr(what), hstr(show(s))), !s.empty());
		if (valid) {
			const std::string want = want_of(s.empty() ? default_ix : it->second) + "!";
			if (!got) rep.viol(std::string(what) + ":rejected a name", "{:%s}", show(s).c_str());
			else if (*got != want) rep.viol(std::string(what) + ":wrong encoding", "{:%s} got=%s expected=%s", show(s).c_str(), got->c_str(), want.c_str());
			rep.count("accepted");
		} else {
			if (got) rep.viol(std::string(what) + ":accepted", "{:%s} got=%s", show(s).c_str(), got->c_str());
			rep.count("rejected");
		}
	}
};

template <typename CharT, typename F> static void mutations(F && f, Rng & g, uint64_t random, bool deep) {
	using S = std::basic_string<CharT>;
	std::vector<S> all;
	for (auto & [n, ix] : names) all.emplace_back(n.begin(), n.end());
	f(S{});
	std::vector<CharT> alphabet;
	for (unsigned c = 1; c < 256; ++c) alphabet.push_back(static_cast<CharT>(c));
	alphabet.push_back(CharT(0));
	if constexpr (sizeof(CharT) > 1) for (uint32_t hi : {0x100u, 0x200u, 0xff00u, 0x10000u, 0x7fffff00u}) for (const char * p = "base64hxd_no"; *p; ++p) alphabet.push_back(static_cast<CharT>(hi + static_cast<uint32_t>(*p)));
	for (auto & n : all) {
		f(n);
		for (size_t k = 0; k <= n.size(); ++k) { f(n.substr(0, k)); f(n.substr(k)); }
		for (size_t i = 0; i <= n.size(); ++i) for (CharT c : alphabet) { S s = n; s.insert(s.begin() + static_cast<long>(i), c); f(s); }
		for (size_t i = 0; i < n.size(); ++i) for (CharT c : alphabet) { S s = n; s[i] = c; f(s); }
		for (size_t i = 0; i < n.size(); ++i) { S s = n; s.erase(i, 1); f(s); }
		for (size_t i = 0; i + 1 < n.size(); ++i) { S s = n; std::swap(s[i], s[i + 1]); f(s); }
		for (unsigned m = 0; m < (1u << std::min<size_t>(n.size(), 10)); ++m) { S s = n; for (size_t i = 0; i < s.size() && i < 10; ++i) if ((m >> i & 1u) && ((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z'))) s[i] = static_cast<CharT>(s[i] ^ 32); f(s); }
		for (auto & o : all) { f(n + o); f(n + S(1, CharT(' ')) + o); f(n + S(1, CharT(',')) + o); for (size_t k = 1; k < o.size(); ++k) f(n.substr(0, k % (n.size() + 1)) + o.substr(k)); }
		for (size_t k : {1u, 2u, 5u, 17u, 18u, 19u, 40u, 300u}) { f(n + S(k, CharT(' '))); f(n + S(k, CharT(0))); f(n + S(k, CharT('x'))); f(S(k, CharT(' ')) + n); }
	}
	for (size_t k = 1; k < 300; ++k) f(S(k, CharT('a')));
	// every text of one and two characters
	for (CharT a : alphabet) { f(S(1, a)); if (deep) for (CharT b : alphabet) { S s; s += a; s += b; f(s); } }
	// other names one might expect
	for (const char * x : {"x", "X", "hex", "HEX", "Base64", "base-64", "base64-url", "base64_no_pad", "base64url_no_padding", "base32hex", "zbase", "z-base-32", "base8_no_padding", "oct", "bin", "base10", "base1", "base", "BASE64", "BASE32", "BASE8", "BINARY", "OCTAL", "HexDec", ">10", "s", "d", "?", "<", "^5", "#x", "0", ".3", "L"}) f(S(x, x + strlen(x)));
	for (uint64_t i = 0; i < random; ++i) {
		S s;
		if (g.chance(1, 2)) { s = all[g.below(all.size())]; for (unsigned k = 0, K = static_cast<unsigned>(g.in(1, 4)); k < K && !s.empty(); ++k) { const size_t at = g.below(s.size()); switch (g.below(3)) { case 0: s[at] = alphabet[g.below(alphabet.size())]; break; case 1: s.erase(at, 1); break; default: s.insert(s.begin() + static_cast<long>(at), alphabet[g.below(alphabet.size())]); } } }
		else for (unsigned k = 0, K = static_cast<unsigned>(g.in(1, 24)); k < K; ++k) s += static_cast<CharT>("abcdefhinoprstuvxzABDEX0123456789_-"[g.below(35)]);
		f(s);
	}
}

// the parser itself: it selects by the whole text before the brace and stops there
template <typename CharT> static void parser(const std::basic_string<CharT> & s, Rng & g) {
	if (s.find(CharT('}')) != s.npos) return;
	std::string n; bool narrowable = true;
	for (CharT c : s) { if (static_cast<std::make_unsigned_t<CharT>>(c) > 126) narrowable = false; n += static_cast<char>(c); }
	auto it = narrowable ? names.find(n) : names.end();
	for (unsigned tail = 0; tail < 3; ++tail) {
		std::basic_string<CharT> in = s;
		if (tail) { in += CharT('}'); if (tail == 2) { in += static_cast<CharT>("x}b6"[g.below(4)]); in += CharT('}'); } }
		auto sv = std::basic_string_view<CharT>(in);
		const char * what = sizeof(CharT) == 1 ? "select_encoding" : "wide select_encoding";
		rep.cas(key(hstr(what), hstr(Via<cthash::hash_value<7>, CharT>::show(in))), !in.empty());
		try {
			auto r = cthash::select_runtime_encoding<cthash::encoding::base8>(sv);
			const size_t used = static_cast<size_t>(r.iterator - sv.begin());
			if (!s.empty() && it == names.end()) { rep.viol(std::string(what) + ":accepted", "%s", Via<cthash::hash_value<7>, CharT>::show(in).c_str()); continue; }
			if (used != s.size()) rep.viol(std::string(what) + ":stopped at the wrong place", "%s stopped at %zu", Via<cthash::hash_value<7>, CharT>::show(in).c_str(), used);
			const std::string text = r.encoding.visit([&]<typename E>(E) { std::string t; for (char c : content | cthash::encode_to<E>) t += c; return t; });
			if (text != want_of(s.empty() ? 8 : it->second)) rep.viol(std::string(what) + ":wrong encoding", "%s got=%s", Via<cthash::hash_value<7>, CharT>::show(in).c_str(), text.c_str());
			const std::string_view sel = r.encoding.visit([]<typename E>(E) { return std::string_view(E::name); });
			if (sel != ref::encodings[s.empty() ? 8 : it->second].name) rep.viol(std::string(what) + ":wrong name", "%s selected %s", Via<cthash::hash_value<7>, CharT>::show(in).c_str(), std::string(sel).c_str());
		} catch (const std::exception &) {
			if (s.empty() || it != names.end()) rep.viol(std::string(what) + ":rejected a name", "%s", Via<cthash::hash_value<7>, CharT>::show(in).c_str());
		}
	}
	if constexpr (sizeof(CharT) == 1) {
		if (s.size() < 60) try {
			const auto e = cthash::runtime_encoding(std::string_view(s));
			if (it == names.end()) rep.viol("runtime_encoding:accepted", "%s", Via<cthash::hash_value<7>, CharT>::show(s).c_str());
			else if (e.visit([]<typename E>(E) { return std::string_view(E::name); }) != ref::encodings[it->second].name) rep.viol("runtime_encoding:wrong", "%s", s.c_str());
		} catch (const std::exception &) { if (it != names.end()) rep.viol("runtime_encoding:rejected a name", "%s", s.c_str()); }
	}
}

int main(int argc, char ** argv) {
	Args a(argc, argv);
	const auto seed = a.num("seed", 1), random = a.num("random", 3000);
	const bool deep = a.num("deep", 0);
	for (unsigned i = 0; i < 11; ++i) { names[ref::encodings[i].name] = i; if (ref::encodings[i].alt) names[ref::encodings[i].alt] = i; }
	Rng g(key(seed, 14));
	const auto part = a.num("part", 0);
	if (part == 0) { Via<cthash::hash_value<7>, char> v(6, "hash_value"); mutations<char>([&](const std::string & s) { v.spec(s); }, g, random, deep); }
	if (part == 1) { Via<cthash::tagged_hash_value<tag_default>, char> v(3, "tagged value"); mutations<char>([&](const std::string & s) { v.spec(s); }, g, random, deep); }
	if (part == 2) { Via<cthash::hash_value<7>, wchar_t> v(6, "wide hash_value"); mutations<wchar_t>([&](const std::wstring & s) { v.spec(s); }, g, random, deep); }
	if (part == 3) { Via<cthash::tagged_hash_value<tag_default>, wchar_t> v(3, "wide tagged value"); mutations<wchar_t>([&](const std::wstring & s) { v.spec(s); }, g, random, deep); }
	if (part == 4) { Via<cthash::shake128_value<56>, char> v(6, "shake value"); mutations<char>([&](const std::string & s) { v.spec(s); }, g, random, deep); }
	if (part == 5) mutations<char>([&](const std::string & s) { parser<char>(s, g); }, g, random, deep);
	if (part == 6) mutations<wchar_t>([&](const std::wstring & s) { parser<wchar_t>(s, g); }, g, random, deep);
	rep.sample("17 names and alternative names, each with every single insertion, deletion, substitution, swap, case change, cut and concatenation");
	return rep.done();
}
