// Type-erased view of the library's hashers. Only the adapters (a_*.cpp)
// include the library; workloads see this.
#pragma once
#include "ref.hpp"
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

enum Form : int {
	F_SPAN_BYTE, F_SPAN_UCHAR, F_SPAN_CHAR, F_SPAN_SCHAR, F_SPAN_CHAR8,
	F_SV, F_U8SV, F_STRING, F_U8STRING, F_VEC_BYTE, F_VEC_UCHAR, F_VEC_CHAR,
	// only for some lengths:
	F_ARRAY_BYTE, F_ARRAY_UCHAR, F_ARRAY_CHAR, F_LIT_CHAR, F_LIT_CHAR8, F_CARR_BYTE, F_CARR_UCHAR, F_CARR_SCHAR,
	F_FIXSPAN_BYTE, F_FIXSPAN_UCHAR, F_FIXSPAN_CHAR, F_HASH_VALUE, F_TAGGED_VALUE, F_MUTSPAN_BYTE, F_MUTSPAN_UCHAR, F_FIXED_STRING, F_VEC_SCHAR, F_VEC_CHAR8,
	F_COUNT
};
extern const char * const form_names[F_COUNT];

struct Algo {
	const char * name;
	ref::Spec spec;
	size_t obj_size, obj_align;
	bool seeded, has_size, is_xof;
	void (*construct)(void * mem, uint64_t seed, bool with_seed);
	void (*copy)(void * mem, const void * from);
	void (*move)(void * mem, void * from);
	void (*destroy)(void * obj);
	bool (*assign)(void * obj, const void * from);                               // false: not assignable
	bool (*update)(void * obj, int form, const uint8_t * p, size_t n);            // false: form not usable for this n
	bool (*can_update)(int form);
	void (*final_value)(void * obj, uint8_t * out);                               // fixed length: digest_size bytes
	bool (*final_span)(void * obj, uint8_t * out);                                // writes directly into out, false if not available
	bool (*final_const)(const void * obj, uint8_t * out);                         // const final, false if not available
	bool (*final_xof)(void * obj, uint8_t * out, size_t len);                     // false: this length isn't instantiated
	bool (*size)(const void * obj, uint64_t & out);
	bool (*oneshot)(int form, uint64_t seed, bool with_seed, const uint8_t * p, size_t n, uint8_t * out); // simple<>
	bool (*update_and_final)(void * obj, int form, const uint8_t * p, size_t n, uint8_t * out);
};

void register_algo(const Algo & a);
const std::vector<const Algo *> & all_algos(); // sorted by name
const Algo * find_algo(const std::string & name);
