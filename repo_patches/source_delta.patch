From 78989556a8c06fe1cbe8a274c0029fe2abccc151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 01/17] fix: xxhash counts the whole length of every update

update() added only the low eight bits of the input's size to the total
length, so any single update of 256 bytes or more gave a wrong digest.
---
 include/cthash-single-header.hpp | 2 +-
 include/cthash/xxhash.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 1691958..ec3cf05 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 6a0db64..7708e16 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
-- 
2.43.0


From 5ec8c81685604122ea9ab96c904beebf4e28ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 02/17] fix: xxhash32 keeps a 64-bit total length

With a 32-bit counter an input of exactly k*4GiB plus less than 16 bytes
looked like a short input and skipped merging the lanes.
---
 include/cthash-single-header.hpp | 6 +++---
 include/cthash/xxhash.hpp        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index ec3cf05..72aab62 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2824,7 +2824,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u};
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += input.size();
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -2892,7 +2892,7 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = input.size();
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 7708e16..96257c0 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -130,7 +130,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u};
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += input.size();
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -200,7 +200,7 @@ template <size_t Bits> struct xxhash {
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = input.size();
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
-- 
2.43.0


From fd2e1d71cbe5fbf5898ebd60ef841aa58248a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 03/17] fix: constant evaluation reads signed bytes without
 sign extension

Bytes >= 0x80 of char or int8_t inputs were sign extended when a number was
put together during constant evaluation, so the compile time digest differed
from the run time one.
---
 include/cthash-single-header.hpp    | 4 ++--
 include/cthash/internal/convert.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 72aab62..50615f3 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1401,7 +1401,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -1417,7 +1417,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
diff --git a/include/cthash/internal/convert.hpp b/include/cthash/internal/convert.hpp
index d75ddcc..7839373 100644
--- a/include/cthash/internal/convert.hpp
+++ b/include/cthash/internal/convert.hpp
@@ -18,7 +18,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -34,7 +34,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<unsigned char>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
-- 
2.43.0


From 2dc64e0928bb9e51e48bcf9a1c942963e2c8ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 04/17] fix: bit_buffer push of a value as wide as its storage

Shifting the storage by its full width is undefined; encoding a range of 32 or
64 bit integers mixed bits of the previous value into the following ones.
---
 include/cthash-single-header.hpp       | 7 ++++++-
 include/cthash/encoding/bit-buffer.hpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 50615f3..a6ee0a4 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -206,7 +206,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits >= sizeof(storage_type) * 8u) {
+			// all previous bits are replaced (and a shift by full width is undefined)
+			buffer = static_cast<storage_type>(in);
+		} else {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
diff --git a/include/cthash/encoding/bit-buffer.hpp b/include/cthash/encoding/bit-buffer.hpp
index 3f9dab6..5128176 100644
--- a/include/cthash/encoding/bit-buffer.hpp
+++ b/include/cthash/encoding/bit-buffer.hpp
@@ -69,7 +69,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits >= sizeof(storage_type) * 8u) {
+			// all previous bits are replaced (and a shift by full width is undefined)
+			buffer = static_cast<storage_type>(in);
+		} else {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
-- 
2.43.0


From 35adef224e26d6ac71a3eef39fd2c3540babc615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 05/17] fix: reject encoding names which only start with a
 known name

The name was cut to the length of the longest known name (and wide characters
to their low byte) before it was compared, so '{:base64_no_paddingX}' was
accepted as base64_no_padding.
---
 include/cthash-single-header.hpp      | 9 +++++----
 include/cthash/encoding/encodings.hpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index a6ee0a4..4d3a199 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -766,8 +766,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 		return result{.encoding = DefaultEncoding{}, .iterator = it};
 	}
 
-	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// this will copy it into buffer to compare (one more character is kept, so longer names won't match)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
@@ -775,14 +775,15 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// no name contains a character which doesn't fit into char
+			*out++ = (static_cast<decltype(c)>(static_cast<char>(c)) == c) ? static_cast<char>(c) : '\0';
 		}
 
 		++it;
diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 37508da..6e05871 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -173,8 +173,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 		return result{.encoding = DefaultEncoding{}, .iterator = it};
 	}
 
-	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// this will copy it into buffer to compare (one more character is kept, so longer names won't match)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
@@ -182,14 +182,15 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// no name contains a character which doesn't fit into char
+			*out++ = (static_cast<decltype(c)>(static_cast<char>(c)) == c) ? static_cast<char>(c) : '\0';
 		}
 
 		++it;
-- 
2.43.0


From 8efc57ed6ed2fad1261d909e5f8560c03ac4f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 06/17] fix: initialize the block buffer of SHA-2 hashers

Copying a hasher whose buffer was not filled yet read indeterminate values,
which is not allowed in constant evaluation (clang rejects it).
---
 include/cthash-single-header.hpp | 2 +-
 include/cthash/hasher.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 4d3a199..a79dfb6 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1510,7 +1510,7 @@ template <typename Config> struct internal_hasher {
 	unsigned block_used;
 
 	// constructors
-	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block_used{0u} { }
+	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block{}, block_used{0u} { }
 	constexpr internal_hasher(const internal_hasher &) noexcept = default;
 	constexpr internal_hasher(internal_hasher &&) noexcept = default;
 	constexpr ~internal_hasher() noexcept = default;
diff --git a/include/cthash/hasher.hpp b/include/cthash/hasher.hpp
index bd15faf..e546ed2 100644
--- a/include/cthash/hasher.hpp
+++ b/include/cthash/hasher.hpp
@@ -46,7 +46,7 @@ template <typename Config> struct internal_hasher {
 	unsigned block_used;
 
 	// constructors
-	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block_used{0u} { }
+	constexpr internal_hasher() noexcept: hash{config.initial_values}, total_length{0u}, block{}, block_used{0u} { }
 	constexpr internal_hasher(const internal_hasher &) noexcept = default;
 	constexpr internal_hasher(internal_hasher &&) noexcept = default;
 	constexpr ~internal_hasher() noexcept = default;
-- 
2.43.0


From 611a854dd987c2232e03f96502f66a6889268dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 07/17] fix: single header includes <cstdint> before it uses
 uint8_t

The header did not compile on its own with current standard libraries.
---
 include/cthash-single-header.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index a79dfb6..7d0f6ff 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -116,6 +116,7 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 
 #include <ranges>
 #include <concepts>
+#include <cstdint>
 
 namespace cthash {
 
-- 
2.43.0


From b043316c0085a8e960eed7751dc9ea9ad543205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 08/17] fix: to_string of encoded views without std::ranges::to

The fallback named a variable which does not exist, so nothing compiled in
C++20 mode or with a standard library which lacks std::ranges::to.
---
 include/cthash/encoding/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 745130d..7bdb57b 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -93,7 +93,7 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 		auto result = std::basic_string<CharT>{};
 		result.resize(size());
 		auto [i, o] = std::ranges::copy(begin(), end(), result.begin());
-		assert(i == encoded.end());
+		assert(i == end());
 		assert(o == result.end());
 		return result;
 #endif
-- 
2.43.0


From 93b5a0fce60f8033c84467b33042ae6aec6250d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 09/17] fix: arrays of bytes are not string literals

update() dropped the last element of std::byte, unsigned char and
signed char arrays as if it was a terminating zero.
---
 include/cthash-single-header.hpp     | 14 +++++++++++++-
 include/cthash/internal/concepts.hpp |  4 +++-
 include/cthash/xxhash.hpp            | 10 ++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 7d0f6ff..2b452d0 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1372,7 +1372,9 @@ template <typename T> concept one_byte_char = (sizeof(T) == 1u);
 
 template <typename T> concept byte_like = (sizeof(T) == 1u) && (std::same_as<T, char> || std::same_as<T, unsigned char> || std::same_as<T, char8_t> || std::same_as<T, std::byte> || std::same_as<T, uint8_t> || std::same_as<T, int8_t>);
 
-template <one_byte_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
+template <typename T> concept literal_char = one_byte_char<T> && (std::same_as<T, char> || std::same_as<T, char8_t>);
+
+template <literal_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
 
 template <typename T> concept string_literal = requires(const T & in) //
 {
@@ -2898,6 +2900,11 @@ template <size_t Bits> struct xxhash {
 		return update(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <byte_like Byte, size_t N> requires(not literal_char<Byte>)
+	[[gnu::flatten]] constexpr xxhash & update(const Byte (&input)[N]) noexcept {
+		return update(std::span<const Byte>(input));
+	}
+
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
 		length = input.size();
 		process_blocks(input);
@@ -2914,6 +2921,11 @@ template <size_t Bits> struct xxhash {
 		return update_and_final(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <byte_like Byte, size_t N> requires(not literal_char<Byte>)
+	[[gnu::flatten]] constexpr auto update_and_final(const Byte (&input)[N]) noexcept {
+		return update_and_final(std::span<const Byte>(input));
+	}
+
 	constexpr auto converge_conditionaly() const noexcept -> value_type {
 		// step 1 shortcut for short input
 		if (length < buffer.size()) {
diff --git a/include/cthash/internal/concepts.hpp b/include/cthash/internal/concepts.hpp
index c653670..5acd0fa 100644
--- a/include/cthash/internal/concepts.hpp
+++ b/include/cthash/internal/concepts.hpp
@@ -9,7 +9,9 @@ template <typename T> concept one_byte_char = (sizeof(T) == 1u);
 
 template <typename T> concept byte_like = (sizeof(T) == 1u) && (std::same_as<T, char> || std::same_as<T, unsigned char> || std::same_as<T, char8_t> || std::same_as<T, std::byte> || std::same_as<T, uint8_t> || std::same_as<T, int8_t>);
 
-template <one_byte_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
+template <typename T> concept literal_char = one_byte_char<T> && (std::same_as<T, char> || std::same_as<T, char8_t>);
+
+template <literal_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
 
 template <typename T> concept string_literal = requires(const T & in) //
 {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 96257c0..77e4347 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -197,6 +197,11 @@ template <size_t Bits> struct xxhash {
 		return update(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <byte_like Byte, size_t N> requires(not literal_char<Byte>)
+	[[gnu::flatten]] constexpr xxhash & update(const Byte (&input)[N]) noexcept {
+		return update(std::span<const Byte>(input));
+	}
+
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
@@ -215,6 +220,11 @@ template <size_t Bits> struct xxhash {
 		return update_and_final(std::span(std::data(input), std::size(input) - 1u));
 	}
 
+	template <byte_like Byte, size_t N> requires(not literal_char<Byte>)
+	[[gnu::flatten]] constexpr auto update_and_final(const Byte (&input)[N]) noexcept {
+		return update_and_final(std::span<const Byte>(input));
+	}
+
 	constexpr auto converge_conditionaly() const noexcept -> value_type {
 		// step 1 shortcut for short input
 		if (length < buffer.size()) {
-- 
2.43.0


From 55d0eabe267bc7490fbcf4656afd30c90979b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 10/17] fix: xxhash update_and_final continues a started hash

It forgot the length and buffered bytes of previous updates.
---
 include/cthash-single-header.hpp | 5 +++++
 include/cthash/xxhash.hpp        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 2b452d0..ef3b3c2 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2906,6 +2906,11 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
+		if (length != 0u) {
+			// there is already something hashed, input must continue after it
+			return update(input).final();
+		}
+
 		length = input.size();
 		process_blocks(input);
 		tagged_hash_value<tag> output;
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 77e4347..9e9ad65 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -205,6 +205,11 @@ template <size_t Bits> struct xxhash {
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
+		if (length != 0u) {
+			// there is already something hashed, input must continue after it
+			return update(input).final();
+		}
+
 		length = input.size();
 		process_blocks(input);
 		tagged_hash_value<tag> output;
-- 
2.43.0


From ca1385079a53bf5cd8a50a18e7e14c6d1718f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 11/17] fix: checksum reports a file it can't map

A directory or a pipe made it read thru MAP_FAILED.
---
 checksum.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/checksum.cpp b/checksum.cpp
index eab5903..b382d9b 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -54,6 +54,11 @@ int main(int argc, char ** argv) {
 		return 1;
 	}
 
+	if (f.sz != 0 && f.ptr == MAP_FAILED) {
+		std::cerr << "can't map file!\n";
+		return 1;
+	}
+
 	const auto start = std::chrono::high_resolution_clock::now();
 
 	if (h == "sha-224") {
-- 
2.43.0


From 809d542fde404e2c2d34004172ad9606f3c99556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 12/17] fix: headers include what they use

encoding/base.hpp did not compile on its own.
---
 include/cthash/encoding/base.hpp     | 3 +++
 include/cthash/internal/bit.hpp      | 3 +++
 include/cthash/internal/concepts.hpp | 3 +++
 include/cthash/internal/convert.hpp  | 1 +
 include/cthash/internal/deduce.hpp   | 1 +
 include/cthash/internal/hexdec.hpp   | 2 ++
 6 files changed, 13 insertions(+)

diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 7bdb57b..6bc2996 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -4,6 +4,9 @@
 #include "chunk-of-bits.hpp"
 #include "encodings.hpp"
 #include <bit>
+#include <algorithm>
+#include <iterator>
+#include <string>
 
 namespace cthash {
 
diff --git a/include/cthash/internal/bit.hpp b/include/cthash/internal/bit.hpp
index 99ede08..92f19ce 100644
--- a/include/cthash/internal/bit.hpp
+++ b/include/cthash/internal/bit.hpp
@@ -2,6 +2,9 @@
 #define CTHASH_INTERNAL_BIT_HPP
 
 #include <bit>
+#include <concepts>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash::internal {
 
diff --git a/include/cthash/internal/concepts.hpp b/include/cthash/internal/concepts.hpp
index 5acd0fa..e438c71 100644
--- a/include/cthash/internal/concepts.hpp
+++ b/include/cthash/internal/concepts.hpp
@@ -2,6 +2,9 @@
 #define CTHASH_CONCEPTS_HPP
 
 #include <span>
+#include <concepts>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash {
 
diff --git a/include/cthash/internal/convert.hpp b/include/cthash/internal/convert.hpp
index 7839373..91d03fd 100644
--- a/include/cthash/internal/convert.hpp
+++ b/include/cthash/internal/convert.hpp
@@ -3,6 +3,7 @@
 
 #include "bit.hpp"
 #include "concepts.hpp"
+#include <algorithm>
 #include <span>
 #include <type_traits>
 #include <cstddef>
diff --git a/include/cthash/internal/deduce.hpp b/include/cthash/internal/deduce.hpp
index abc37c6..77ec3de 100644
--- a/include/cthash/internal/deduce.hpp
+++ b/include/cthash/internal/deduce.hpp
@@ -3,6 +3,7 @@
 
 #include <concepts>
 #include <cstdint>
+#include <cstddef>
 
 namespace cthash::internal {
 
diff --git a/include/cthash/internal/hexdec.hpp b/include/cthash/internal/hexdec.hpp
index 44d186e..406941c 100644
--- a/include/cthash/internal/hexdec.hpp
+++ b/include/cthash/internal/hexdec.hpp
@@ -5,6 +5,8 @@
 #include <ostream>
 #include <span>
 #include <type_traits>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash::internal {
 
-- 
2.43.0


From 1e0da93b846dd1ff4feadc7b45919e56a248cf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 13/17] fix: bit_buffer supports output as wide as its storage

---
 include/cthash-single-header.hpp       | 4 ++--
 include/cthash/encoding/bit-buffer.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index ef3b3c2..d361688 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -172,7 +172,7 @@ template <size_t Bits> using select_bit_integer_t = select_bit_integer<Bits>::ty
 
 template <size_t V> requires(std::popcount(V) == 1u) constexpr auto log2_of_power_of_2 = static_cast<size_t>(std::countr_zero(V));
 
-template <size_t Bits> constexpr auto mask = static_cast<select_bit_integer_t<Bits>>((static_cast<select_bit_integer_t<Bits>>(1u) << Bits) - 1u);
+template <size_t Bits> constexpr auto mask = static_cast<select_bit_integer_t<Bits>>(static_cast<select_bit_integer_t<Bits>>(~select_bit_integer_t<Bits>{0u}) >> (sizeof(select_bit_integer_t<Bits>) * 8u - Bits));
 
 template <size_t Capacity> class basic_bit_buffer {
 public:
@@ -185,7 +185,7 @@ public:
 	size_type bits_available{0};
 
 public:
-	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>((static_cast<storage_type>(1u) << Bits) - 1u);
+	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>(static_cast<storage_type>(~storage_type{0u}) >> (sizeof(storage_type) * 8u - Bits));
 
 	constexpr friend bool operator==(const basic_bit_buffer & lhs, const basic_bit_buffer & rhs) noexcept = default;
 
diff --git a/include/cthash/encoding/bit-buffer.hpp b/include/cthash/encoding/bit-buffer.hpp
index 5128176..3465fa2 100644
--- a/include/cthash/encoding/bit-buffer.hpp
+++ b/include/cthash/encoding/bit-buffer.hpp
@@ -34,7 +34,7 @@ template <size_t Bits> using select_bit_integer_t = select_bit_integer<Bits>::ty
 
 template <size_t V> requires(std::popcount(V) == 1u) constexpr auto log2_of_power_of_2 = static_cast<size_t>(std::countr_zero(V));
 
-template <size_t Bits> constexpr auto mask = static_cast<select_bit_integer_t<Bits>>((static_cast<select_bit_integer_t<Bits>>(1u) << Bits) - 1u);
+template <size_t Bits> constexpr auto mask = static_cast<select_bit_integer_t<Bits>>(static_cast<select_bit_integer_t<Bits>>(~select_bit_integer_t<Bits>{0u}) >> (sizeof(select_bit_integer_t<Bits>) * 8u - Bits));
 
 template <size_t Capacity> class basic_bit_buffer {
 public:
@@ -47,7 +47,7 @@ public:
 	size_type bits_available{0};
 
 public:
-	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>((static_cast<storage_type>(1u) << Bits) - 1u);
+	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>(static_cast<storage_type>(~storage_type{0u}) >> (sizeof(storage_type) * 8u - Bits));
 
 	constexpr friend bool operator==(const basic_bit_buffer & lhs, const basic_bit_buffer & rhs) noexcept = default;
 
-- 
2.43.0


From e1b2ab405d424070cefa6ccb6aa78104a0336c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 14/17] fix: bit_buffer is aligned when whole inputs are whole
 outputs

---
 include/cthash-single-header.hpp       | 2 +-
 include/cthash/encoding/bit-buffer.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index d361688..7ca5e0b 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -265,7 +265,7 @@ public:
 	static constexpr auto in_capacity = std::integral_constant<size_type, (capacity() / in_bits())>{};
 	static constexpr auto out_capacity = std::integral_constant<size_type, (capacity() / out_bits())>{};
 
-	static constexpr auto aligned = std::bool_constant<capacity() == in_capacity()>{};
+	static constexpr auto aligned = std::bool_constant<capacity() == in_bits()>{};
 
 	constexpr void push(in_type in) noexcept {
 		super::template push<in_bits>(in);
diff --git a/include/cthash/encoding/bit-buffer.hpp b/include/cthash/encoding/bit-buffer.hpp
index 3465fa2..632ee33 100644
--- a/include/cthash/encoding/bit-buffer.hpp
+++ b/include/cthash/encoding/bit-buffer.hpp
@@ -127,7 +127,7 @@ public:
 	static constexpr auto in_capacity = std::integral_constant<size_type, (capacity() / in_bits())>{};
 	static constexpr auto out_capacity = std::integral_constant<size_type, (capacity() / out_bits())>{};
 
-	static constexpr auto aligned = std::bool_constant<capacity() == in_capacity()>{};
+	static constexpr auto aligned = std::bool_constant<capacity() == in_bits()>{};
 
 	constexpr void push(in_type in) noexcept {
 		super::template push<in_bits>(in);
-- 
2.43.0


From dd51ba6761e2cdb29ffc968ca59a042f86ec35a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 15/17] fix: checksum lists sha-512/224

---
 checksum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/checksum.cpp b/checksum.cpp
index b382d9b..e50f2a1 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -40,7 +40,7 @@ struct mapped_file {
 int main(int argc, char ** argv) {
 	if (argc < 3) {
 		std::cerr << argv[0] << " hash file\n";
-		std::cerr << "hash is one of: sha-224, sha-256, sha-384, sha-512, sha-512/223, sha-512/256, sha3-224, sha3-256, sha3-384, sha3-512, \n";
+		std::cerr << "hash is one of: sha-224, sha-256, sha-384, sha-512, sha-512/224, sha-512/256, sha3-224, sha3-256, sha3-384, sha3-512, \n";
 		std::cerr << "  shake-128/n, shake-256/n (where n is 32/64/128/256/512/1024/2048),\n";
 		std::cerr << "  xxhash32, xxhash64\n";
 		return 1;
-- 
2.43.0


From 806cbfd2760e1757503aa24cb937baa3a01243f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 16/17] fix: encodings.hpp includes what it uses

---
 include/cthash/encoding/encodings.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 6e05871..f994f40 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -2,7 +2,15 @@
 #define CTHASH_ENCODING_ENCODINGS_HPP
 
 #include "concepts.hpp"
+#include <algorithm>
+#include <array>
+#include <iterator>
+#include <optional>
+#include <stdexcept>
+#include <string_view>
 #include <variant>
+#include <cassert>
+#include <cstddef>
 
 namespace cthash {
 
-- 
2.43.0


From fe339f485bdee6398c9bf37481f0d4c34b2c657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 17/17] fix: single header has the text members of encoded
 views

---
 include/cthash-single-header.hpp | 77 ++++++++++++++++++++++++++++++--
 1 file changed, 74 insertions(+), 3 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 7ca5e0b..ef4c23c 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -513,7 +513,7 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 
 		storage_type buffer{};
 
-		constexpr iterator(parent & p) noexcept: it{p.begin()}, end{p.end()} {
+		constexpr iterator(parent & p) noexcept: it{std::ranges::begin(p)}, end{std::ranges::end(p)} {
 			// initialize
 			buffer.feed_buffer(it, end);
 		}
@@ -595,8 +595,16 @@ template <size_t Bits, bool AllowPadding = false> constexpr auto chunk_of_bits =
 
 #ifndef CTHASH_ENCODING_ENCODINGS_HPP
 #define CTHASH_ENCODING_ENCODINGS_HPP
+#include <algorithm>
+#include <array>
+#include <iterator>
+#include <optional>
+#include <stdexcept>
+#include <string_view>
 
 #include <variant>
+#include <cassert>
+#include <cstddef>
 
 namespace cthash {
 
@@ -806,6 +814,9 @@ template <typename DefaultEncoding = encoding::hexdec, typename InputContext> co
 #endif
 
 #include <bit>
+#include <algorithm>
+#include <iterator>
+#include <string>
 
 namespace cthash {
 
@@ -887,6 +898,24 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 	constexpr size_t size() const noexcept requires(std::ranges::sized_range<R>) {
 		return input.size();
 	}
+
+	constexpr auto to_string() const requires(std::ranges::sized_range<R>) {
+#if __cpp_lib_ranges_to_container >= 202202L
+		return std::ranges::to<std::basic_string<CharT>>(*this);
+#else
+		auto result = std::basic_string<CharT>{};
+		result.resize(size());
+		auto [i, o] = std::ranges::copy(begin(), end(), result.begin());
+		assert(i == end());
+		assert(o == result.end());
+		return result;
+#endif
+	}
+
+	constexpr friend std::basic_ostream<CharT> & operator<<(std::basic_ostream<CharT> & out, encode_to_view in) {
+		std::ranges::copy(in.begin(), in.end(), std::ostream_iterator<CharT, CharT>(out));
+		return out;
+	}
 };
 
 template <typename Encoding, typename ValueT, typename R> struct decode_from_view {
@@ -918,7 +947,7 @@ template <typename Encoding, typename CharT = char> struct encode_to_action {
 	template <std::ranges::input_range R> constexpr friend auto operator|(R && input, encode_to_action action) {
 		return action.operator()<R>(std::forward<R>(input));
 	}
-	template <std::ranges::input_range R> constexpr auto operator()(R && input) {
+	template <std::ranges::input_range R> constexpr auto operator()(R && input) const {
 		return encode_to_view<Encoding, CharT, R>(std::forward<R>(input));
 	}
 };
@@ -927,7 +956,7 @@ template <typename Encoding, typename ValueT = unsigned char> struct decode_from
 	template <std::ranges::input_range R> constexpr friend auto operator|(R && input, decode_from_action action) {
 		return action.operator()<R>(std::forward<R>(input));
 	}
-	template <std::ranges::input_range R> constexpr auto operator()(R && input) {
+	template <std::ranges::input_range R> constexpr auto operator()(R && input) const {
 		return decode_from_view<Encoding, ValueT, R>(std::forward<R>(input));
 	}
 };
@@ -964,6 +993,38 @@ constexpr auto base64_no_padding_decode = decode_from<encoding::base64_no_paddin
 
 } // namespace cthash
 
+namespace std {
+
+#if __cpp_lib_format >= 201907L
+#define CTHASH_STDFMT_AVAILABLE 1
+#endif
+
+#if _LIBCPP_VERSION >= 170000
+// libc++ will define __cpp_lib_format macro in 19.0
+// https://github.com/llvm/llvm-project/issues/77773
+#define CTHASH_STDFMT_AVAILABLE 1
+#endif
+
+// template <typename Encoding, typename CharT, typename R> struct encode_to_view
+
+#ifdef CTHASH_STDFMT_AVAILABLE
+template <typename Encoding, typename R, typename CharT>
+struct formatter<cthash::encode_to_view<Encoding, CharT, R>, CharT> {
+	using subject_type = cthash::encode_to_view<Encoding, CharT, R>;
+
+	template <typename ParseContext> constexpr auto parse(ParseContext & ctx) {
+		return std::ranges::begin(ctx);
+	}
+
+	template <typename FormatContext> constexpr auto format(const subject_type & value, FormatContext & ctx) const {
+		return std::ranges::copy(value, ctx.out()).out;
+	}
+};
+
+#endif
+
+} // namespace std
+
 #endif
 
 #ifndef CTHASH_INTERNAL_ALGORITHM_HPP
@@ -1000,6 +1061,7 @@ template <typename T, typename It1, typename It2, typename Stream> constexpr aut
 
 #include <concepts>
 #include <cstdint>
+#include <cstddef>
 
 namespace cthash::internal {
 
@@ -1044,6 +1106,8 @@ template <typename Config> constexpr size_t digest_bytes_length_of = [] {
 #include <ostream>
 #include <span>
 #include <type_traits>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash::internal {
 
@@ -1327,6 +1391,9 @@ constexpr void assert_this(bool value, const char * expression, const char * fil
 #define CTHASH_INTERNAL_BIT_HPP
 
 #include <bit>
+#include <concepts>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash::internal {
 
@@ -1365,6 +1432,9 @@ template <unsigned_integral_of_size<8> T> constexpr auto byteswap(T val) noexcep
 #define CTHASH_CONCEPTS_HPP
 
 #include <span>
+#include <concepts>
+#include <cstddef>
+#include <cstdint>
 
 namespace cthash {
 
@@ -1394,6 +1464,7 @@ template <typename T> concept convertible_to_byte_span = requires(T && obj) //
 
 #ifndef CTHASH_INTERNAL_CONVERT_HPP
 #define CTHASH_INTERNAL_CONVERT_HPP
+#include <algorithm>
 
 #include <span>
 #include <type_traits>
-- 
2.43.0

