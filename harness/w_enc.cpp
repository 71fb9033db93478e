// Encodings against an independent encoder (C12), and views of them (C23).
// -DENC=index into ref::encodings -DENC_TYPE=cthash::encoding::x, and -DCONFORM or -DVIEWS
#include "core.hpp"
#include <array>
#include <cthash/encoding/base.hpp>
#include <cthash/value.hpp>
#include <deque>
#include <list>
#include <memory>
#include <numeric>
#include <span>
#include <sstream>
#if __has_include(<format>)
#include <format>
#endif
using namespace rt;
using E = ENC_TYPE;

static Report rep;
static uint64_t seed;
static const ref::Enc & enc = ref::encodings[ENC];

template <typename S> static std::string narrow(const S & s) { std::string r; for (auto c : s) r += (static_cast<uint32_t>(c) < 128 ? static_cast<char>(c) : '?'); return r; }

static std::string reference(const std::vector<uint8_t> & v) { return ref::encode(enc, v.data(), v.size()); }
// the text of wider elements: padded to the common multiple of element and group
static std::string reference_wide(const std::vector<uint8_t> & bytes, unsigned in_bits) {
	ref::Enc e = enc; e.padded = false;
	std::string s = ref::encode(e, bytes.data(), bytes.size());
	if (enc.padded) while (s.size() * enc.bits % std::lcm(enc.bits, in_bits)) s += '=';
	return s;
}

static void same(const std::string & got, const std::string & want, const char * path, const std::vector<uint8_t> & in) {
	if (got == want) return;
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
	rep.viol(std::string(enc.name) + ":" + path, "input=%s (%zu) got=%s (%zu) expected=%s (%zu) first difference at %zu", hexs(in.data(), in.size()).c_str(), in.size(), got.substr(i > 20 ? i - 20 : 0, 60).c_str(), got.size(), want.substr(i > 20 ? i - 20 : 0, 60).c_str(), want.size(), i);
}
template <typename V> static auto collect(V && v, size_t limit) {
	using C = std::remove_cvref_t<decltype(*v.begin())>;
	std::basic_string<C> s;
	for (auto it = v.begin(); it != v.end(); ++it) { s += *it; if (s.size() > limit) break; }
	return s;
}

template <typename C> static C from(const std::vector<uint8_t> & v) { C c; for (uint8_t x : v) c.insert(c.end(), static_cast<typename C::value_type>(x)); return c; }

#ifdef CONFORM // ---- C12
template <typename CharT, typename R> static void text(R && r, const std::string & want, const char * path, const std::vector<uint8_t> & in) {
	auto v = std::forward<R>(r) | cthash::encode_to<E, CharT>;
	auto s = collect(v, want.size() + 50);
	std::string n = narrow(s);
	same(n, want, path, in);
	if constexpr (requires { v.size(); }) if (v.size() != want.size()) rep.viol(std::string(enc.name) + ":size:" + path, "input of %zu bytes: size()=%zu expected %zu", in.size(), size_t(v.size()), want.size());
}
static void paths(const std::vector<uint8_t> & in, unsigned which) {
	const std::string want = reference(in);
	Exact x(in.data(), in.size());
	const auto bytes = std::span<const std::byte>(reinterpret_cast<const std::byte *>(x.p), in.size());
	text<char>(bytes, want, "span<byte> char", in);
	switch (which % 14) {
		case 0: text<char>(std::span<const unsigned char>(x.p, in.size()), want, "span<uchar>", in); break;
		case 1: text<char>(std::string_view(reinterpret_cast<const char *>(x.p), in.size()), want, "string_view", in); break;
		case 2: text<char>(std::span<const signed char>(reinterpret_cast<const signed char *>(x.p), in.size()), want, "span<schar>", in); break;
		case 3: text<char>(from<std::string>(in), want, "temporary string", in); break;
		case 4: text<wchar_t>(in, want, "vector wchar_t", in); break;
		case 5: text<char8_t>(in, want, "vector char8_t", in); break;
		case 6: text<char16_t>(in, want, "vector char16_t", in); break;
		case 7: text<char32_t>(in, want, "vector char32_t", in); break;
		case 8: text<char>(from<std::list<uint8_t>>(in), want, "temporary list", in); break;
		case 9: { const auto d = from<std::deque<std::byte>>(in); text<char>(d, want, "deque", in); break; }
		case 10: { auto v = in | cthash::encode_to<E, char>; same(v.to_string(), want, "to_string", in); break; }
		case 11: { auto v = in | cthash::encode_to<E, wchar_t>; same(narrow(v.to_string()), want, "to_string wchar_t", in); break; }
		case 12: { std::ostringstream o; o << "<" << (in | cthash::encode_to<E, char>) << ">"; same(o.str(), "<" + want + ">", "operator<<", in); break; }
		case 13: { std::wostringstream o; o << (in | cthash::encode_to<E, wchar_t>); same(narrow(o.str()), want, "operator<< wchar_t", in); break; }
	}
#ifdef CTHASH_STDFMT_AVAILABLE
	if (which % 5 == 0) {
		same(std::format("{}|", in | cthash::encode_to<E, char>), want + "|", "format", in);
		same(narrow(std::format(L"{}", in | cthash::encode_to<E, wchar_t>)), want, "format wchar_t", in);
	}
#endif
	if (in.size() == 5 + which % 3 && which % 4 == 0 && rep.want_sample()) rep.sample("%s of %s -> %s", enc.name, hex(in.data(), in.size()).c_str(), want.c_str());
	rep.cas(key(ENC, in.size(), hstr(std::string_view(reinterpret_cast<const char *>(in.data()), in.size())), which % 14), !in.empty());
}

template <typename T> static void wide(const char * name) {
	constexpr size_t in_bits = sizeof(T) * 8;
	constexpr size_t group = cthash::encoding_properties<E>::bits;
	if constexpr (std::lcm(group, in_bits) <= 64) {
		Rng g(key(seed, ENC, in_bits, std::is_signed_v<T>));
		for (size_t n = 0; n <= 30; ++n) for (unsigned pat = 0; pat < 6; ++pat) {
			std::vector<T> v(n);
			std::vector<uint8_t> bytes;
			for (size_t i = 0; i < n; ++i) {
				v[i] = static_cast<T>(pat == 0 ? 0 : pat == 1 ? ~0ull : pat == 2 ? 1ull << (g.below(in_bits)) : g.next());
				for (unsigned b = sizeof(T); b-- > 0;) bytes.push_back(static_cast<uint8_t>(static_cast<std::make_unsigned_t<T>>(v[i]) >> (b * 8)));
			}
			text<char>(v, reference_wide(bytes, in_bits), name, bytes);
			text<char>(std::span<const T>(v), reference_wide(bytes, in_bits), name, bytes);
			rep.cas(key(ENC, in_bits, std::is_signed_v<T>, n, pat), n > 0);
		}
	} else rep.count(std::string("common multiple above 64 bits: ") + name);
}

template <size_t N> static void digest_of_size() {
	Rng g(key(seed, N, 77));
	for (unsigned i = 0; i < 6; ++i) {
		std::vector<uint8_t> b(N);
		fill(b.data(), N, i, g.next());
		cthash::hash_value<N> h;
		memcpy(h.data(), b.data(), N);
		text<char>(h, reference(b), "digest", b);
		text<char>(cthash::hash_value<N>(h), reference(b), "temporary digest", b);
		rep.cas(key(ENC, N, i, 78));
	}
}

static void conform(const Args & a) {
	unsigned w = 0;
	paths({}, 0);
	for (unsigned i = 0; i < 14; ++i) paths({}, i);
	for (unsigned x = 0; x < 256; ++x) paths({static_cast<uint8_t>(x)}, w++);
	const unsigned step = static_cast<unsigned>(a.num("step2", 1));
	for (unsigned x = 0; x < 65536; x += step) paths({static_cast<uint8_t>(x >> 8), static_cast<uint8_t>(x)}, w++);
	Rng g(key(seed, ENC, 3));
	for (size_t n = 3; n <= 300; ++n) for (unsigned pat = 0; pat < P_COUNT; ++pat) paths(msg(n, pat, g.next()), w++);
	for (size_t n = 1; n <= 20; ++n) for (size_t b = 0; b < n * 8; ++b) { std::vector<uint8_t> v(n); v[b / 8] = static_cast<uint8_t>(0x80u >> (b % 8)); paths(v, w++); }
	const auto random = a.num("random", 3000);
	for (uint64_t i = 0; i < random; ++i) paths(msg(g.below(i % 50 ? 60 : 5000), static_cast<unsigned>(g.below(P_COUNT)), g.next()), w++);
	for (unsigned i = 0; i < 14; ++i) paths(msg(a.num("big", 70001) + i, P_RANDOM, g.next()), i);
	wide<uint16_t>("uint16_t"); wide<int16_t>("int16_t"); wide<uint32_t>("uint32_t"); wide<int32_t>("int32_t"); wide<uint64_t>("uint64_t"); wide<int64_t>("int64_t");
	digest_of_size<1>(); digest_of_size<4>(); digest_of_size<5>(); digest_of_size<28>(); digest_of_size<32>(); digest_of_size<48>(); digest_of_size<64>();
}

#endif
#ifdef VIEWS // ---- C23
// one pass over a fresh view of the same bytes
static std::string baseline(const std::vector<uint8_t> & in) {
	const std::vector<uint8_t> c(in);
	return narrow(collect(c | cthash::encode_to<E, char>, in.size() * 8 + 100));
}
template <typename V> static void walkers(V & v, const std::string & want, const char * how, const std::vector<uint8_t> & in, Rng & g) {
	// several iterators at several places, copied and advanced in random order; each must agree with the text at its place
	using It = std::remove_cvref_t<decltype(v.begin())>;
	struct Walker { It it; size_t at; };
	std::vector<std::unique_ptr<Walker>> ws; // not assignable in general
	auto fail = [&](const char * what, size_t at) { rep.viol(std::string(enc.name) + ":view:" + how + ":" + what, "input=%s (%zu) at character %zu of %zu", hexs(in.data(), in.size()).c_str(), in.size(), at, want.size()); };
	auto look = [&](const Walker & w, const char * what) {
		const bool end = w.it == v.end();
		if (end != (w.at == want.size())) { fail(end ? "early end" : "no end", w.at); return false; }
		if (!end && static_cast<uint32_t>(*w.it) != static_cast<uint32_t>(static_cast<unsigned char>(want[w.at]))) { fail(what, w.at); return false; }
		return true;
	};
	ws.push_back(std::unique_ptr<Walker>(new Walker{v.begin(), 0}));
	for (unsigned i = 0; i < 60; ++i) {
		Walker & w = *ws[g.below(ws.size())];
		switch (g.below(6)) {
			case 0: if (ws.size() < 6) ws.push_back(std::unique_ptr<Walker>(new Walker{v.begin(), 0})); break;
			case 1: if (ws.size() < 6) ws.push_back(std::unique_ptr<Walker>(new Walker(w))); break;
			case 2: case 3: if (w.at < want.size()) { for (size_t k = g.in(1, 1 + want.size() / 8); k-- && w.at < want.size();) { auto & r = ++w.it; if (&r != &w.it) fail("pre-increment result", w.at); ++w.at; } } break;
			case 4: if (w.at < want.size()) { const Walker before = w; Walker old{w.it++, w.at++}; if (!look(old, "post-increment result")) return; if (!look(before, "copy before increment")) return; } break;
			default: if (!look(w, "dereference")) return; if (!look(w, "second dereference")) return; break;
		}
		if (!look(w, "walk")) return;
	}
	rep.count("iterators", ws.size());
	for (auto & w : ws) { while (w->at < want.size()) { if (!look(*w, "rest")) return; ++w->it; ++w->at; } if (!look(*w, "end")) return; }
}
template <typename V> static void repeat(V & v, const std::string & want, const char * how, const std::vector<uint8_t> & in, Rng & g) {
	for (unsigned r = 0; r < 2; ++r) {
		auto s = collect(v, want.size() + 50);
		same(narrow(s), want, (std::string("view:") + how + (r ? ":second pass" : ":first pass")).c_str(), in);
		if constexpr (requires { v.size(); }) if (v.size() != s.size()) rep.viol(std::string(enc.name) + ":view:" + how + ":size", "reported %zu emitted %zu input of %zu bytes", size_t(v.size()), s.size(), in.size());
		walkers(v, want, how, in, g);
	}
	const auto & c = v;
	same(narrow(collect(c, want.size() + 50)), want, (std::string("view:") + how + ":const view").c_str(), in);
	walkers(c, want, how, in, g);
	rep.cas(key(ENC, in.size(), hstr(how), hstr(want)), !in.empty());
}

static void scribble() { volatile char junk[2048]; for (auto & c : junk) c = 0x5a; }

template <typename CharT, typename C> static auto view_of_temporary(const std::vector<uint8_t> & in) {
	auto v = from<C>(in) | cthash::encode_to<E, CharT>; // the container is gone after this line
	return v;
}

static void views(const Args & a) {
	Rng g(key(seed, ENC, 23));
	auto one = [&](std::vector<uint8_t> in) {
		std::string want = baseline(in);
		{ // lvalue, then changed content
			auto v = in | cthash::encode_to<E, char>;
			repeat(v, want, "lvalue vector", in, g);
			const auto kept = in;
			if (!in.empty()) {
				in[g.below(in.size())] ^= static_cast<uint8_t>(1 + g.below(255));
				repeat(v, baseline(in), "lvalue after a change", in, g);
				in.push_back(static_cast<uint8_t>(g.next())); in.push_back(1);
				repeat(v, baseline(in), "lvalue after growth", in, g);
				in.resize(g.below(in.size()));
				repeat(v, baseline(in), "lvalue after shrinking", in, g);
			}
			auto copy = v;
			in = kept;
			repeat(copy, want, "copy of lvalue view", in, g);
			if (in != kept) rep.viol(std::string(enc.name) + ":view:source changed", "%zu bytes", in.size());
		}
		{ // temporaries
			auto v = view_of_temporary<char, std::vector<uint8_t>>(in); scribble();
			repeat(v, want, "temporary vector", in, g);
			auto w = v; auto x = std::move(v);
			repeat(w, want, "copied view of temporary", in, g);
			repeat(x, want, "moved view of temporary", in, g);
			auto s = view_of_temporary<char, std::string>(in); scribble();
			repeat(s, want, "temporary string", in, g);
			auto l = view_of_temporary<wchar_t, std::list<uint8_t>>(in); scribble();
			repeat(l, want, "temporary list, wchar_t", in, g);
			auto d = view_of_temporary<char16_t, std::deque<char>>(in); scribble();
			repeat(d, want, "temporary deque, char16_t", in, g);
			// to_string, stream and iteration of the same view, mixed
			same(w.to_string(), want, "view:to_string first", in);
			std::ostringstream o; o << w << w;
			same(o.str(), want + want, "view:streamed twice", in);
			same(w.to_string(), want, "view:to_string second", in);
			repeat(w, want, "after to_string and streaming", in, g);
		}
		{ // const source and fixed extents
			const std::vector<uint8_t> c(in);
			auto v = c | cthash::encode_to<E, char>;
			repeat(v, want, "const lvalue", in, g);
			auto sv = std::span<const uint8_t>(c) | cthash::encode_to<E, char>;
			repeat(sv, want, "span", in, g);
			if (c != in) rep.viol(std::string(enc.name) + ":view:source changed", "%zu bytes", in.size());
			auto fn = cthash::encode_to<E, char>(c);
			repeat(fn, want, "called with lvalue", in, g);
		}
	};
	one({});
	for (size_t n = 1; n <= 40; ++n) one(msg(n, P_RANDOM, g.next()));
	const auto random = a.num("random", 40);
	for (uint64_t i = 0; i < random; ++i) one(msg(g.below(150), static_cast<unsigned>(g.below(P_COUNT)), g.next()));
	// a digest and views of digest temporaries
	for (unsigned i = 0; i < 20; ++i) {
		std::vector<uint8_t> b(32); fill(b.data(), 32, i % P_COUNT, g.next());
		cthash::hash_value<32> h; memcpy(h.data(), b.data(), 32);
		auto mk = [&] { cthash::hash_value<32> t = h; return std::move(t) | cthash::encode_to<E, char>; };
		auto v = mk(); scribble();
		repeat(v, baseline(b), "temporary digest", b, g);
		auto l = h | cthash::encode_to<E, char>;
		repeat(l, baseline(b), "lvalue digest", b, g);
		h[5] = std::byte{0x17}; b[5] = 0x17;
		repeat(l, baseline(b), "lvalue digest changed", b, g);
	}
	rep.sample("%s: up to 6 iterators over one view, copied and advanced in random order, over 14 kinds of source", enc.name);
}

#endif

int main(int argc, char ** argv) {
	Args a(argc, argv);
	seed = a.num("seed", 1);
#ifdef CONFORM
	conform(a);
#endif
#ifdef VIEWS
	views(a);
#endif
	return rep.done();
}
