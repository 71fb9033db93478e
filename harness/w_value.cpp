// Digest values: printing (C13), hexadecimal text (C15), comparison (C16, C17), prefix and suffix (C18).
// -DVALUES='X(type,"name") ...' with one of -DPRINT -DHEX -DCOMPARE -DCUT; -DCROSS for C17
#include "core.hpp"
#include <array>
#include <cthash/cthash.hpp>
#include <cthash/sha2/sha512/t.hpp>
#include <iomanip>
#include <map>
#include <memory>
#include <set>
#include <span>
#include <locale>
#include <sstream>
#if __has_include(<format>)
#include <format>
#endif
using namespace rt;

// tags which select their own default encoding
struct tag_base64 { static constexpr size_t digest_length = 20; using encoding = cthash::encoding::base64; };
struct tag_base32 { static constexpr size_t digest_length = 13; using encoding = cthash::encoding::base32; };
struct tag_zbase32 { static constexpr size_t digest_length = 32; using encoding = cthash::encoding::z_base32; };
struct tag_upper { static constexpr size_t digest_length_bit = 72; using encoding = cthash::encoding::base16_uppercase; };
struct tag_binary { static constexpr size_t digest_length = 3; using encoding = cthash::encoding::base2; };
struct tag_plain { static constexpr size_t digest_length = 17; };

static Report rep;
static uint64_t seed;
static const char * vname;

template <typename S> static std::string narrow(const S & s) { std::string r; for (auto c : s) r += (static_cast<uint64_t>(c) < 128 ? static_cast<char>(c) : '?'); return r; }
static std::wstring widen(const std::string & s) { return std::wstring(s.begin(), s.end()); }

template <typename V> static V value(const std::vector<uint8_t> & b) { V v; if (v.size() != b.size()) abort(); memcpy(v.data(), b.data(), b.size()); return v; }
template <typename V> constexpr size_t bytes_of = V{}.size();
template <typename V> static std::vector<uint8_t> bytes(const V & v) { std::vector<uint8_t> b(v.size()); for (size_t i = 0; i < v.size(); ++i) b[i] = static_cast<uint8_t>(v[i]); return b; }

static void same(const std::string & got, const std::string & want, const std::string & path, const std::vector<uint8_t> & b) {
	rep.cas(key(hstr(vname), hstr(path), hstr(want)), true);
	if (got != want) rep.viol(std::string(vname) + ":" + path, "digest=%s got=%s expected=%s", hexs(b.data(), b.size()).c_str(), got.c_str(), want.c_str());
}

#ifdef PRINT
// the text of the bytes by direct use of the encoding
static std::string text_of(unsigned ix, const std::vector<uint8_t> & b) {
	std::string r; unsigned i = 0;
	auto one = [&]<typename E>(E) { if (i++ == ix) for (char c : b | cthash::encode_to<E>) r += c; };
	using namespace cthash::encoding;
	one(base64{}); one(base64_no_padding{}); one(base64url{}); one(base32{}); one(base32_no_padding{}); one(z_base32{}); one(base16{}); one(base16_uppercase{}); one(base8{}); one(base4{}); one(base2{});
	return r;
}
template <typename V> constexpr bool has_own_encoding = false;
template <typename Tag> struct tag_of { };
template <typename V> struct default_enc { static constexpr unsigned index = 6; };
template <> struct default_enc<cthash::tagged_hash_value<tag_base64>> { static constexpr unsigned index = 0; };
template <> struct default_enc<cthash::tagged_hash_value<tag_base32>> { static constexpr unsigned index = 3; };
template <> struct default_enc<cthash::tagged_hash_value<tag_zbase32>> { static constexpr unsigned index = 5; };
template <> struct default_enc<cthash::tagged_hash_value<tag_upper>> { static constexpr unsigned index = 7; };
template <> struct default_enc<cthash::tagged_hash_value<tag_binary>> { static constexpr unsigned index = 10; };

template <typename V, typename E> static void named(const V & v, const std::vector<uint8_t> & b, unsigned ix) {
	const ref::Enc & e = ref::encodings[ix];
	const std::string want = text_of(ix, b);
	const std::string n = e.name;
	same(to_string<E>(v), want, "to_string<" + n + ">", b);
	same(narrow(to_string<E, wchar_t>(v)), want, "to_string<" + n + ", wchar_t>", b);
	{ auto f = to_fixed_string<E>(v); same(std::string(f.data(), f.size()), want, "to_fixed_string<" + n + ">", b); }
	{ auto f = to_fixed_string<E, char16_t>(v); same(narrow(std::u16string(f.data(), f.size())), want, "to_fixed_string<" + n + ", char16_t>", b); }
	{ std::string s; for (char c : v | cthash::encode_to<E>) { s += c; if (s.size() > want.size() + 20) break; } same(s, want, "encode_to<" + n + ">", b); }
	same((v | cthash::encode_to<E>).to_string(), want, "encode_to<" + n + ">.to_string", b);
	{ std::ostringstream o; o << (v | cthash::encode_to<E>); same(o.str(), want, "<< encode_to<" + n + ">", b); }
	{ std::ostringstream o; v.template print_into<E>(o); same(o.str(), want, "print_into<" + n + ">", b); }
	{ std::wostringstream o; v.template print_into<E>(o); same(narrow(o.str()), want, "print_into<" + n + "> wide", b); }
#ifdef CTHASH_STDFMT_AVAILABLE
	for (const char * name : {e.name, e.alt}) if (name) {
		const std::string spec = std::string("{:") + name + "}";
		same(std::vformat(spec, std::make_format_args(v)), want, "format " + spec, b);
		same(std::vformat("<" + spec + "|" + spec + ">", std::make_format_args(v, v)), "<" + want + "|" + want + ">", "format twice " + spec, b);
		same(narrow(std::vformat(widen(spec), std::make_wformat_args(v))), want, "wide format " + spec, b);
		std::vector<char> room(want.size() + 16, '#');
		auto end = std::vformat_to(room.data() + 8, spec, std::make_format_args(v));
		same(std::string(room.data() + 8, static_cast<size_t>(end - room.data() - 8)), want, "format_to " + spec, b);
		same(std::string(room.begin(), room.begin() + 8) + std::string(room.end() - 8, room.end()), "################", "format_to surroundings " + spec, b);
	}
#endif
}

struct Digits: std::numpunct<char> { std::string do_grouping() const override { return "\1"; } char do_thousands_sep() const override { return '_'; } };
template <typename V> static void print(const V & v) {
	const auto b = bytes(v);
	// hexadecimal unless the tag says otherwise
	const std::string want = default_enc<V>::index == 6 ? hex(b.data(), b.size()) : text_of(default_enc<V>::index, b);
	if (rep.want_sample()) rep.sample("%s %s", vname, want.substr(0, 80).c_str());
	// streams in several states; printing leaves the state alone
	for (unsigned st = 0; st < 12; ++st) {
		std::ostringstream o;
		std::wostringstream w;
		if (st & 1) { o << std::hex << std::uppercase << std::showbase; w << std::hex << std::uppercase << std::showbase; }
		if (st & 2) { o << std::setfill('*') << std::left << std::boolalpha << std::showpos << std::setprecision(3) << std::scientific; w << std::setfill(L'*') << std::left; }
		if (st & 4) { o << std::oct << std::unitbuf << std::internal; w << std::oct; }
		if (st & 8) { o << std::setprecision(st == 8 ? 7 : 17) << std::fixed << std::showpoint << std::right << std::noskipws; w << std::setprecision(17) << std::boolalpha << std::showpos; o.imbue(std::locale(std::locale::classic(), new Digits)); o.exceptions(std::ios_base::failbit); }
		const auto fl = o.flags(); const auto fi = o.fill(); const auto pr = o.precision();
		o << v; w << v;
		same(o.str(), want, "<<", b);
		same(narrow(w.str()), want, "wide <<", b);
		if (o.flags() != fl || o.fill() != fi || o.precision() != pr || o.width() != 0 || !o.good()) rep.viol(std::string(vname) + ":<< changed the stream", "state %u", st);
		o << '/' << v; w << L'/' << v << v;
		same(o.str(), want + "/" + want, "<< again", b);
		same(narrow(w.str()), want + "/" + want + want, "wide << again", b);
	}
	{ std::ostringstream o; o << 3 << v << "x" << 2.5 << v << true << 255; same(o.str(), "3" + want + "x2.5" + want + "1255", "<< mixed", b); }
	{ std::ostringstream o; v.print_into(o); same(o.str(), want, "print_into", b); }
	{ std::ostringstream o; v.template print_into<cthash::encoding::base2>(o); o << v; v.template print_into<cthash::encoding::base64>(o); same(o.str(), text_of(10, b) + want + text_of(0, b), "print_into mixed", b); }
	same(to_string(v), want, "to_string", b);
	{ auto f = to_fixed_string(v); same(std::string(f.data(), f.size()), want, "to_fixed_string", b);
	  if (!(f == std::string_view(want))) rep.viol(std::string(vname) + ":to_fixed_string ==", "%s", want.c_str()); }
	{ const cthash::hash_value<bytes_of<V>> & base = v; std::ostringstream o; o << base; same(o.str(), hex(b.data(), b.size()), "<< as hash_value", b); same(to_string(base), hex(b.data(), b.size()), "to_string as hash_value", b); }
#ifdef CTHASH_STDFMT_AVAILABLE
	same(std::format("{}", v), want, "format {}", b);
	same(std::format("{:}", v), want, "format {:}", b);
	same(std::format("[{0}{0:base16}{0:BASE16}{0}]", v), "[" + want + text_of(6, b) + text_of(7, b) + want + "]", "format with several names", b);
	same(narrow(std::format(L"{}", v)), want, "wide format {}", b);
	same(narrow(std::format(L"{:}-{:base4}", v, v)), want + "-" + text_of(9, b), "wide format with name", b);
	same(std::to_string(std::formatted_size("{:base2}", v)), std::to_string(b.size() * 8), "formatted_size", b);
	{ std::string s(want.size() + 4, '#'); auto r = std::format_to_n(s.data(), static_cast<std::ptrdiff_t>(want.size()) - 1, "{}", v); same(s.substr(0, want.size() - 1) + "+" + std::to_string(r.size), want.substr(0, want.size() - 1) + "+" + std::to_string(want.size()), "format_to_n", b); same(s.substr(want.size() - 1), "#####", "format_to_n surroundings", b); }
#endif
	[&]<typename... E>(cthash::encoding::list<E...>) { unsigned i = 0; (named<V, E>(v, b, i++), ...); }(cthash::encoding::list<cthash::encoding::base64, cthash::encoding::base64_no_padding, cthash::encoding::base64url, cthash::encoding::base32, cthash::encoding::base32_no_padding, cthash::encoding::z_base32, cthash::encoding::base16, cthash::encoding::base16_uppercase, cthash::encoding::base8, cthash::encoding::base4, cthash::encoding::base2>{});
}
template <typename V> static void run(const Args & a) {
	constexpr size_t N = bytes_of<V>;
	Rng g(key(seed, hstr(vname)));
	for (unsigned p = 0; p < P_COUNT; ++p) print(value<V>(msg(N, p, g.next())));
	const auto random = a.num("random", 6);
	for (uint64_t i = 0; i < random; ++i) print(value<V>(msg(N, P_RANDOM, g.next())));
}
#endif

#ifdef HEX
static const char low[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
template <typename V, typename CharT> static void parse(const std::string & text, const std::vector<uint8_t> & want, const char * cn) {
	constexpr size_t N = bytes_of<V>;
	struct Arr { CharT t[N * 2 + 1]; };
	auto heap = std::unique_ptr<Arr>(new Arr);
	for (size_t i = 0; i < N * 2; ++i) heap->t[i] = static_cast<CharT>(text[i]);
	heap->t[N * 2] = CharT(0);
	auto check = [&](const auto & v, const char * how) {
		rep.cas(key(hstr(vname), hstr(text), hstr(cn), hstr(how)), true);
		const auto b = bytes(v);
		if (b != want) rep.viol(std::string(vname) + ":" + how + " " + cn, "text=%s got=%s", text.c_str(), hex(b.data(), b.size()).c_str());
	};
	check(V(heap->t), "from array of");
	check(cthash::hash_value<N>(heap->t), "hash_value from array of");
	check(cthash::hash_value(heap->t), "deduced hash_value from array of");
	cthash::fixed_string<CharT, N * 2> f(nullptr);
	for (size_t i = 0; i < N * 2; ++i) f[i] = static_cast<CharT>(text[i]);
	check(V(f), "from fixed_string of");
	check(cthash::hash_value<N>(f), "hash_value from fixed_string of");
	if (!(V(f) == V(heap->t))) rep.viol(std::string(vname) + ":two parses differ", "text=%s", text.c_str());
}
template <typename V> static void round_trip(const std::vector<uint8_t> & b) {
	const V v = value<V>(b);
	const auto f = to_fixed_string<cthash::encoding::base16>(v);
	const auto u = to_fixed_string<cthash::encoding::base16_uppercase, wchar_t>(v);
	if (!(V(f) == v) || bytes(V(f)) != b) rep.viol(std::string(vname) + ":round trip", "digest=%s", hexs(b.data(), b.size()).c_str());
	if (!(V(u) == v)) rep.viol(std::string(vname) + ":round trip upper wide", "digest=%s", hexs(b.data(), b.size()).c_str());
	rep.cas(key(hstr(vname), hstr(std::string_view(reinterpret_cast<const char *>(b.data()), b.size())), 4), true);
}
template <typename V> static void run(const Args & a) {
	constexpr size_t N = bytes_of<V>;
	Rng g(key(seed, hstr(vname)));
	auto text = [&](const std::vector<uint8_t> & b, unsigned mode) {
		std::string s;
		for (uint8_t x : b) for (unsigned n : {x >> 4, x & 15}) s += mode == 0 ? low[n] : mode == 1 ? up[n] : g.chance(1, 2) ? low[n] : up[n];
		return s;
	};
	auto all = [&](const std::vector<uint8_t> & b, unsigned mode) {
		const std::string s = text(b, mode);
		parse<V, char>(s, b, "char");
		switch (g.below(4)) { case 0: parse<V, wchar_t>(s, b, "wchar_t"); break; case 1: parse<V, char8_t>(s, b, "char8_t"); break; case 2: parse<V, char16_t>(s, b, "char16_t"); break; default: parse<V, char32_t>(s, b, "char32_t"); }
		round_trip<V>(b);
		if (rep.want_sample()) rep.sample("%s from \"%s\"", vname, s.substr(0, 80).c_str());
	};
	// every byte in every position, in each case
	for (size_t pos = 0; pos < N; ++pos)
		for (unsigned x = 0; x < 256; x += (N > 40 ? 5 : 1)) { auto b = msg(N, P_RANDOM, g.next()); b[pos] = static_cast<uint8_t>(x + pos); all(b, (x + static_cast<unsigned>(pos)) % 3); }
	const auto random = a.num("random", 300);
	for (uint64_t i = 0; i < random; ++i) all(msg(N, static_cast<unsigned>(i % P_COUNT), g.next()), static_cast<unsigned>(i % 3));
}
#endif

#if defined(COMPARE) || defined(CROSS)
static int sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
// all operators in both directions against the expected sign
template <typename A, typename B> static void ops(const A & x, const B & y, int want, const std::function<std::string()> & ctx) {
	auto bad = [&](const char * op) { rep.viol(std::string(vname) + ":" + op, "%s", ctx().c_str()); };
	if ((x == y) != (want == 0)) bad("==");
	if ((x != y) != (want != 0)) bad("!=");
	if ((x < y) != (want < 0)) bad("<");
	if ((x <= y) != (want <= 0)) bad("<=");
	if ((x > y) != (want > 0)) bad(">");
	if ((x >= y) != (want >= 0)) bad(">=");
	if (sign(x <=> y) != want) bad("<=>");
	if ((y == x) != (want == 0)) bad("== swapped");
	if ((y != x) != (want != 0)) bad("!= swapped");
	if ((y < x) != (want > 0)) bad("< swapped");
	if ((y <= x) != (want >= 0)) bad("<= swapped");
	if ((y > x) != (want < 0)) bad("> swapped");
	if ((y >= x) != (want <= 0)) bad(">= swapped");
	if (sign(y <=> x) != -want) bad("<=> swapped");
}
static int order(const std::vector<uint8_t> & a, const std::vector<uint8_t> & b) { const size_t n = std::min(a.size(), b.size()); const int c = n ? memcmp(a.data(), b.data(), n) : 0; return c < 0 ? -1 : c > 0 ? 1 : 0; }
#endif

#ifdef COMPARE
template <typename V> static void pair(const std::vector<uint8_t> & a, const std::vector<uint8_t> & b) {
	const int want = order(a, b);
	auto x = std::unique_ptr<V>(new V(value<V>(a))), y = std::unique_ptr<V>(new V(value<V>(b)));
	auto ctx = FMT("%s and %s", hexs(a.data(), a.size()).c_str(), hexs(b.data(), b.size()).c_str());
	ops(*x, *y, want, ctx);
	ops(*x, *x, 0, ctx);
	using Base = cthash::hash_value<bytes_of<V>>;
	ops(static_cast<const Base &>(*x), static_cast<const Base &>(*y), want, ctx);
	rep.cas(key(hstr(vname), hstr(ctx())), a != b);
}
template <typename V> static void run(const Args & args) {
	constexpr size_t N = bytes_of<V>;
	Rng g(key(seed, hstr(vname)));
	for (size_t pos = 0; pos < N; ++pos) {
		for (unsigned i = 0; i < 60; ++i) { // first difference at pos, the rest random or equal
			auto a = msg(N, static_cast<unsigned>(g.below(P_COUNT)), g.next()), b = a;
			static const uint8_t edge[][2] = {{0x7f, 0x80}, {0x00, 0xff}, {0x00, 0x80}, {0x01, 0xff}, {0x80, 0xff}, {0x7f, 0xff}, {0x00, 0x01}, {0xfe, 0xff}, {0x20, 0xa0}};
			if (i < 9) { a[pos] = edge[i][0]; b[pos] = edge[i][1]; } else b[pos] = static_cast<uint8_t>(a[pos] ^ (1u << g.below(8)));
			if (i % 3) for (size_t k = pos + 1; k < N; ++k) b[k] = static_cast<uint8_t>(i % 3 == 1 ? g.next() : ~a[k]);
			pair<V>(a, b);
		}
	}
	// all byte pairs at one place
	for (unsigned x = 0; x < 256; x += (N > 8 ? 3 : 1)) for (unsigned y = 0; y < 256; y += 5) { auto a = msg(N, P_RANDOM, 3), b = a; a[(x + y) % N] = static_cast<uint8_t>(x); b[(x + y) % N] = static_cast<uint8_t>(y); pair<V>(a, b); }
	const auto random = args.num("random", 500);
	for (uint64_t i = 0; i < random; ++i) {
		auto a = msg(N, static_cast<unsigned>(g.below(P_COUNT)), g.next()), b = i % 4 == 0 ? a : msg(N, static_cast<unsigned>(g.below(P_COUNT)), g.next());
		pair<V>(a, b);
	}
	// sorting and ordered containers agree with sorting the bytes
	for (unsigned r = 0; r < 10; ++r) {
		std::vector<std::vector<uint8_t>> bs;
		for (unsigned i = 0; i < 120; ++i) { auto b = msg(N, r % 2 ? P_RANDOM : static_cast<unsigned>(g.below(P_COUNT)), g.next()); if (r % 3 == 0) for (size_t k = 0; k + 1 < N; ++k) b[k] = static_cast<uint8_t>(k % 4 ? 0 : 0x80 * (g.next() & 1)); bs.push_back(b); }
		std::vector<V> vs; std::map<V, unsigned> m; std::set<std::vector<uint8_t>> sb(bs.begin(), bs.end());
		for (auto & b : bs) { vs.push_back(value<V>(b)); m[vs.back()]++; }
		std::sort(vs.begin(), vs.end());
		std::sort(bs.begin(), bs.end());
		for (size_t i = 0; i < bs.size(); ++i) if (bytes(vs[i]) != bs[i]) { rep.viol(std::string(vname) + ":sort", "position %zu", i); break; }
		if (m.size() != sb.size()) rep.viol(std::string(vname) + ":map", "%zu distinct keys instead of %zu", m.size(), sb.size());
		rep.count("sorted values", bs.size());
	}
	rep.sample("%s: first difference at each of %zu bytes with byte pairs such as 7f/80, rest equal, random or opposite", vname, N);
}
#endif

#ifdef CROSS
template <typename A, typename B> static void cross(const Args & args) {
	constexpr size_t NA = bytes_of<A>, NB = bytes_of<B>, M = std::min(NA, NB);
	Rng g(key(seed, NA, NB, hstr(vname)));
	auto pair = [&](const std::vector<uint8_t> & a, const std::vector<uint8_t> & b) {
		auto x = std::unique_ptr<A>(new A(value<A>(a))); auto y = std::unique_ptr<B>(new B(value<B>(b)));
		auto ctx = FMT("%zu and %zu bytes: %s and %s", NA, NB, hexs(a.data(), NA).c_str(), hexs(b.data(), NB).c_str());
		ops(*x, *y, order(a, b), ctx);
		rep.cas(key(hstr(vname), NA, NB, hstr(std::string_view(reinterpret_cast<const char *>(a.data()), NA)), hstr(std::string_view(reinterpret_cast<const char *>(b.data()), NB))), true);
	};
	auto both = [&](std::vector<uint8_t> a) { std::vector<uint8_t> b(a); b.resize(NB); for (size_t i = M; i < NB; ++i) b[i] = static_cast<uint8_t>(g.next()); a.resize(NA); return std::pair(a, b); };
	const auto random = args.num("random", 40);
	for (uint64_t i = 0; i < random; ++i) {
		auto [a, b] = both(msg(std::max(NA, NB), static_cast<unsigned>(i % P_COUNT), g.next()));
		pair(a, b); // equal on the common prefix
		const size_t pos = i < M ? (i % 2 ? M - 1 - i / 2 : i / 2) : g.below(M);
		auto c = b;
		c[pos] = static_cast<uint8_t>(i % 3 ? b[pos] ^ (1u << g.below(8)) : ~b[pos]);
		pair(a, c);
		auto d = a; d[M - 1] ^= 0x80; pair(d, b); // last common byte
		auto e = c; for (size_t k = pos + 1; k < NB; ++k) e[k] = static_cast<uint8_t>(~e[k]); pair(a, e);
		if (NB > M) { auto f = b; f[M] = static_cast<uint8_t>(~f[M]); pair(a, f); }
		if (NA > M) { auto f = a; f[M] = static_cast<uint8_t>(~f[M]); pair(f, b); }
		pair(msg(NA, P_RANDOM, g.next()), msg(NB, P_RANDOM, g.next()));
	}
}
template <template <size_t> typename V, size_t... N> static void crosses(const Args & args) {
	auto row = [&]<size_t A>() { (cross<V<A * 8>, V<N * 8>>(args), ...); };
	(row.template operator()<N>(), ...);
	rep.sample("%s: every pair of %zu output lengths, in both operand orders", vname, sizeof...(N));
}
#endif

#ifdef CUT
template <typename V, size_t K> static void cut(const V & v, const std::vector<uint8_t> & b) {
	constexpr size_t N = bytes_of<V>;
	const V before = v;
	auto fail = [&](const char * what, const std::vector<uint8_t> & got) { rep.viol(std::string(vname) + ":" + what, "k=%zu digest=%s got=%s", K, hexs(b.data(), N).c_str(), hexs(got.data(), got.size()).c_str()); };
	const auto p = v.template prefix<K>();
	const auto s = v.template suffix<K>();
	static_assert(std::is_same_v<std::remove_const_t<decltype(p)>, cthash::hash_value<K>>);
	static_assert(std::is_same_v<std::remove_const_t<decltype(s)>, cthash::hash_value<K>>);
	const auto pb = bytes(p), sb = bytes(s);
	if (pb != std::vector<uint8_t>(b.begin(), b.begin() + static_cast<long>(K))) fail("prefix", pb);
	if (sb != std::vector<uint8_t>(b.end() - static_cast<long>(K), b.end())) fail("suffix", sb);
	auto joined = pb;
	const auto rest = bytes(v.template suffix<N - K>());
	joined.insert(joined.end(), rest.begin(), rest.end());
	if (joined != b) fail("prefix+suffix", joined);
	if (bytes(v) != b || memcmp(&v, &before, sizeof v) != 0) fail("original changed", bytes(v));
	if constexpr (K > 1) { // cutting a cut
		const auto pp = bytes(p.template suffix<K / 2>());
		if (pp != std::vector<uint8_t>(pb.end() - static_cast<long>(K / 2), pb.end())) fail("suffix of prefix", pp);
	}
	rep.cas(key(hstr(vname), K, hstr(std::string_view(reinterpret_cast<const char *>(b.data()), N))), K > 0 && K < N);
}
template <typename V> static void run(const Args & a) {
	constexpr size_t N = bytes_of<V>;
	Rng g(key(seed, hstr(vname)));
	const auto random = a.num("random", 30);
	for (uint64_t i = 0; i < random; ++i) {
		auto b = msg(N, static_cast<unsigned>(i % P_COUNT), g.next());
		auto v = std::unique_ptr<V>(new V(value<V>(b)));
		[&]<size_t... K>(std::index_sequence<K...>) { (cut<V, K>(*v, b), ...); }(std::make_index_sequence<N + 1>());
	}
	rep.sample("%s: prefix<k> and suffix<k> for every k from 0 to %zu", vname, N);
}
#endif

int main(int argc, char ** argv) {
	Args a(argc, argv);
	seed = a.num("seed", 1);
#ifdef CROSS
	vname = "shake128"; crosses<cthash::shake128_value, CROSS>(a);
	vname = "shake256"; crosses<cthash::shake256_value, CROSS>(a);
#else
#define X(type, name) { using type_ = type; vname = name; run<type_>(a); }
	VALUES
#endif
	return rep.done();
}
