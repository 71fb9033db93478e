#pragma once
#include "api.hpp"
#include <array>
#include <cstring>
#include <new>
#include <span>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

// RICH: also the forms with a compile-time size (slow to compile)
#ifndef RICH
#define RICH 0
#endif

namespace ad {

#if RICH
#ifdef RICH_SIZES
constexpr size_t sizes[] = {RICH_SIZES};
#else
constexpr size_t sizes[] = {5, 64, 137};
#endif
#else
constexpr size_t sizes[] = {1, 32, 64};
#endif

template <typename Fn> bool with_size(size_t n, Fn && fn) {
	return [&]<size_t... I>(std::index_sequence<I...>) {
		return ((n == sizes[I] ? fn(std::integral_constant<size_t, sizes[I]>{}) : false) || ...);
	}(std::make_index_sequence<std::size(sizes)>());
}

template <typename T, size_t N> struct carr { T v[N]; };

// calls fn(value) with the bytes in the given form, false if the form has no such value of this size
template <typename Fn> bool with_form(int form, const uint8_t * p, size_t n, Fn && fn) {
	auto as = [&]<typename T>(std::type_identity<T>) { return std::span<const T>(reinterpret_cast<const T *>(p), n); };
	auto mk = [&]<typename C>(std::type_identity<C>) { C c; c.resize(n); if (n) memcpy(c.data(), p, n); return c; };
	using std::type_identity;
	switch (form) {
		case F_SPAN_BYTE: return fn(as(type_identity<std::byte>{}));
		case F_SPAN_CHAR: return fn(as(type_identity<char>{}));
		case F_SV: return fn(std::string_view(reinterpret_cast<const char *>(p), n));
		case F_STRING: return fn(mk(type_identity<std::string>{}));
		case F_VEC_UCHAR: return fn(mk(type_identity<std::vector<unsigned char>>{}));
#if !defined(LEAN)
		case F_SPAN_UCHAR: return fn(as(type_identity<unsigned char>{}));
		case F_SPAN_SCHAR: return fn(as(type_identity<signed char>{}));
		case F_SPAN_CHAR8: return fn(as(type_identity<char8_t>{}));
		case F_U8SV: return fn(std::u8string_view(reinterpret_cast<const char8_t *>(p), n));
		case F_U8STRING: return fn(mk(type_identity<std::u8string>{}));
		case F_VEC_BYTE: return fn(mk(type_identity<std::vector<std::byte>>{}));
		case F_VEC_CHAR: return fn(mk(type_identity<std::vector<char>>{}));
#endif
#if RICH
		case F_VEC_SCHAR: return fn(mk(type_identity<std::vector<signed char>>{}));
		case F_VEC_CHAR8: return fn(mk(type_identity<std::vector<char8_t>>{}));
		case F_MUTSPAN_BYTE: { auto v = mk(type_identity<std::vector<std::byte>>{}); std::span<std::byte> s(v); return fn(s); }
		case F_MUTSPAN_UCHAR: { auto v = mk(type_identity<std::vector<unsigned char>>{}); std::span<unsigned char> s(v); return fn(s); }
		case F_ARRAY_BYTE: return with_size(n, [&](auto N) { std::array<std::byte, N> a; memcpy(a.data(), p, n); return fn(a); });
		case F_ARRAY_UCHAR: return with_size(n, [&](auto N) { std::array<unsigned char, N> a; memcpy(a.data(), p, n); return fn(a); });
		case F_ARRAY_CHAR: return with_size(n, [&](auto N) { std::array<char, N> a; memcpy(a.data(), p, n); return fn(a); });
		case F_FIXSPAN_BYTE: return with_size(n, [&](auto N) { return fn(std::span<const std::byte, N>(reinterpret_cast<const std::byte *>(p), n)); });
		case F_FIXSPAN_UCHAR: return with_size(n, [&](auto N) { return fn(std::span<const unsigned char, N>(p, n)); });
		case F_FIXSPAN_CHAR: return with_size(n, [&](auto N) { return fn(std::span<const char, N>(reinterpret_cast<const char *>(p), n)); });
		// a literal has a terminating zero which is not part of the message
		case F_LIT_CHAR: return with_size(n, [&](auto N) { carr<char, N + 1> a; memcpy(a.v, p, n); a.v[N] = 0; return fn(std::as_const(a.v)); });
		case F_LIT_CHAR8: return with_size(n, [&](auto N) { carr<char8_t, N + 1> a; memcpy(a.v, p, n); a.v[N] = 0; return fn(std::as_const(a.v)); });
		case F_CARR_BYTE: return with_size(n, [&](auto N) { carr<std::byte, N> a; memcpy(a.v, p, n); return fn(a.v); });
		case F_CARR_UCHAR: return with_size(n, [&](auto N) { carr<unsigned char, N> a; memcpy(a.v, p, n); return fn(std::as_const(a.v)); });
		case F_CARR_SCHAR: return with_size(n, [&](auto N) { carr<signed char, N> a; memcpy(a.v, p, n); return fn(a.v); });
		case F_HASH_VALUE: return with_size(n, [&](auto N) { cthash::hash_value<N> a; memcpy(a.data(), p, n); return fn(a); });
#ifdef TAGGED_INPUT
		case F_TAGGED_VALUE: if (n == sizeof(TAGGED_INPUT)) { TAGGED_INPUT a; memcpy(a.data(), p, n); return fn(a); } else return false;
#endif
		case F_FIXED_STRING: return with_size(n, [&](auto N) { cthash::fixed_string<char, N> a(nullptr); memcpy(a.data(), p, n); return fn(a); });
#endif
		default: return false;
	}
}

template <typename H> struct Impl {
	static constexpr bool seeded = std::is_constructible_v<H, uint32_t>;
	static constexpr bool has_fixed = requires(H & h) { h.final(); };
	static constexpr size_t dsize() {
		if constexpr (has_fixed) return decltype(std::declval<H &>().final()){}.size();
		else return 0;
	}
	static H & h(void * o) { return *std::launder(static_cast<H *>(o)); }
	static const H & h(const void * o) { return *std::launder(static_cast<const H *>(o)); }

	static void construct(void * mem, uint64_t seed, bool with_seed) {
		if constexpr (seeded) {
			if (with_seed) { if constexpr (dsize() == 4) new (mem) H(static_cast<uint32_t>(seed)); else new (mem) H(seed); return; }
		}
		(void)seed; (void)with_seed;
		new (mem) H();
	}
	static void copy(void * mem, const void * from) { new (mem) H(h(from)); }
	static void move(void * mem, void * from) { new (mem) H(std::move(h(from))); }
	static void destroy(void * o) { h(o).~H(); }
	static bool assign(void * o, const void * from) {
		if constexpr (std::is_copy_assignable_v<H>) { h(o) = h(from); return true; }
		else { (void)o; (void)from; return false; }
	}
	static bool update(void * o, int form, const uint8_t * p, size_t n) {
		return with_form(form, p, n, [&](auto && v) {
			if constexpr (requires { h(o).update(v); }) {
				H & r = h(o).update(v);
				if (&r != &h(o)) { __builtin_trap(); } // update returns the hasher itself
				return true;
			} else return false;
		});
	}
	static bool can_update(int form) {
		static const uint8_t z[256] = {};
		bool ok = false;
		auto probe = [&](auto && v) { if constexpr (requires(H & x) { x.update(v); }) ok = true; return true; };
		for (size_t n : sizes) with_form(form, z, n, probe);
		return ok;
	}
	static void final_value(void * o, uint8_t * out) {
		if constexpr (has_fixed) {
			const auto v = h(o).final();
			static_assert(sizeof(v) == dsize());
			memcpy(out, v.data(), v.size());
		} else { (void)o; (void)out; __builtin_trap(); }
	}
	static bool final_span(void * o, uint8_t * out) {
		if constexpr (has_fixed) {
			if constexpr (requires(std::span<std::byte, dsize()> s) { h(o).final(s); }) {
				h(o).final(std::span<std::byte, dsize()>(reinterpret_cast<std::byte *>(out), dsize()));
				return true;
			}
		}
		(void)o; (void)out;
		return false;
	}
	static bool final_const(const void * o, uint8_t * out) {
		if constexpr (requires(const H & c) { c.final(); }) {
			const auto v = h(o).final();
			memcpy(out, v.data(), v.size());
			return true;
		} else { (void)o; (void)out; return false; }
	}
	static bool size(const void * o, uint64_t & out) {
		if constexpr (requires(const H & c) { c.size(); }) { out = static_cast<uint64_t>(h(o).size()); return true; }
		else { (void)o; (void)out; return false; }
	}
	static bool oneshot(int form, uint64_t seed, bool with_seed, const uint8_t * p, size_t n, uint8_t * out) {
		return with_form(form, p, n, [&](auto && v) {
			if constexpr (has_fixed && requires { cthash::simple<H>(v); }) {
				if constexpr (seeded) {
					if (with_seed) {
						using S = std::conditional_t<dsize() == 4, uint32_t, uint64_t>;
						auto go = [&](auto s) {
							if constexpr (requires { cthash::simple<H>(v, s); }) { const auto r = cthash::simple<H>(v, s); memcpy(out, r.data(), r.size()); return true; }
							else return false; // where no seed of this width is taken, a hasher constructed with one tells
						};
						return go(static_cast<S>(seed));
					}
				}
				const auto r = cthash::simple<H>(v);
				memcpy(out, r.data(), r.size());
				return true;
			} else return false;
		});
		(void)seed; (void)with_seed;
	}
	static bool update_and_final(void * o, int form, const uint8_t * p, size_t n, uint8_t * out) {
		return with_form(form, p, n, [&](auto && v) {
			if constexpr (requires { h(o).update_and_final(v); }) {
				const auto r = h(o).update_and_final(v);
				memcpy(out, r.data(), r.size());
				return true;
			} else return false;
		});
		(void)o; (void)out;
	}
};

template <typename H> constexpr Algo make(const char * name, ref::Spec spec, bool (*xof)(void *, uint8_t *, size_t) = nullptr) {
	using I = Impl<H>;
	return Algo{name, spec, sizeof(H), alignof(H), I::seeded, requires(const H & c) { c.size(); }, xof != nullptr,
		I::construct, I::copy, I::move, I::destroy, I::assign, I::update, I::can_update, I::final_value, I::final_span, I::final_const, xof, I::size, I::oneshot, I::update_and_final};
}

} // namespace ad
