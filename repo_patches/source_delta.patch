From 8a01558ba5ae9f09225c3c3d3c0357006ee2e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:20 +0000
Subject: [PATCH 01/67] fix: scanning a char32_t/wchar_t from an ill-formed or
 empty source no longer trips an assertion (decoded as if valid)

---
 src/scn/impl.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 676a9e5..2104494 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5615,14 +5615,22 @@ public:
     auto read(const SourceRange& range, char32_t& cp)
         -> scan_expected<ranges::const_iterator_t<SourceRange>>
     {
+        if (auto e = eof_check(range); SCN_UNLIKELY(!e)) {
+            return unexpected(make_eof_scan_error(e));
+        }
         auto result = read_code_point_into(range);
         if (SCN_UNLIKELY(!result.is_valid())) {
             return detail::unexpected_scan_error(
                 scan_error::invalid_scanned_value, "Invalid code point");
         }
-        cp = detail::decode_code_point_exhaustive_valid(
+        const auto decoded = detail::decode_code_point_exhaustive(
             std::basic_string_view<detail::char_t<SourceRange>>{
                 result.codepoint});
+        if (SCN_UNLIKELY(decoded >= detail::invalid_code_point)) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_scanned_value, "Invalid code point");
+        }
+        cp = decoded;
         return result.iterator;
     }
 };
-- 
2.43.0


From ab237452d1a58ffdc4c6f504167375fe3cf8b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:20 +0000
Subject: [PATCH 02/67] fix: float reader gives the same answer for contiguous
 and non-contiguous sources (0x without digits, leading '.', {:a} without
 prefix)

---
 src/scn/impl.cpp | 18 +++++++++---------
 src/scn/impl.h   | 34 ++++++++++++----------------------
 2 files changed, 21 insertions(+), 31 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f97c748..54ac718 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -429,7 +429,10 @@ protected:
                                                   int c_errno,
                                                   T value) const
     {
-        if (is_float_zero(value) && chars_read == 0) {
+        // hex_without_prefix has had "0x" added to the front of the source
+        const std::ptrdiff_t min_chars =
+            m_kind == float_reader_base::float_kind::hex_without_prefix ? 3 : 1;
+        if (is_float_zero(value) && chars_read < min_chars) {
             SCN_UNLIKELY_ATTR
             return detail::unexpected_scan_error(
                 scan_error::invalid_scanned_value,
@@ -847,14 +850,11 @@ scan_expected<std::ptrdiff_t> dispatch_impl(
     }
 
     SCN_EXPECT(!data.input.view().empty());
-    if (data.kind == float_reader_base::float_kind::hex_without_prefix) {
-        if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 16)) {
-            return detail::unexpected_scan_error(
-                scan_error::invalid_scanned_value,
-                "Invalid floating-point digit");
-        }
-    }
-    if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
+    const auto max_digit =
+        data.kind == float_reader_base::float_kind::hex_without_prefix ? 16
+                                                                       : 10;
+    if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= max_digit &&
+                     data.input.view().front() != CharT{'.'})) {
         return detail::unexpected_scan_error(scan_error::invalid_scanned_value,
                                              "Invalid floating-point digit");
     }
diff --git a/src/scn/impl.h b/src/scn/impl.h
index 2104494..baed486 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3935,13 +3935,7 @@ private:
         auto it = range.begin();
 
         std::ptrdiff_t digits_count = 0;
-        if (auto r = read_hex_digits(ranges::subrange{it, range.end()}, true);
-            SCN_UNLIKELY(!r)) {
-            return r.transform_error(map_parse_error_to_scan_error(
-                scan_error::invalid_scanned_value,
-                "Invalid hexadecimal floating-point value"));
-        }
-        else {
+        if (auto r = read_hex_digits(ranges::subrange{it, range.end()}, true)) {
             digits_count += ranges::distance(it, *r);
             it = *r;
         }
@@ -3979,13 +3973,7 @@ private:
         auto it = ranges::begin(range);
         std::ptrdiff_t digits_count = 0;
 
-        if (auto r = read_dec_digits(ranges::subrange{it, range.end()}, true);
-            SCN_UNLIKELY(!r)) {
-            return r.transform_error(
-                map_parse_error_to_scan_error(scan_error::invalid_scanned_value,
-                                              "Invalid floating-point value"));
-        }
-        else {
+        if (auto r = read_dec_digits(ranges::subrange{it, range.end()}, true)) {
             digits_count += ranges::distance(it, *r);
             it = *r;
         }
@@ -4054,17 +4042,16 @@ private:
         if (allowed_hex && !allowed_nonhex) {
             // only hex allowed:
             // prefix "0x" allowed, not required
-            auto it = range.begin();
-
             if (auto r = read_hex_prefix(range)) {
                 m_kind = float_kind::hex_with_prefix;
-                it = *r;
-            }
-            else {
-                m_kind = float_kind::hex_without_prefix;
+                if (auto hex = read_hex(ranges::subrange{*r, range.end()})) {
+                    return *hex;
+                }
+                // no digits after the prefix: only the '0' can match
             }
 
-            return read_hex(ranges::subrange{it, range.end()});
+            m_kind = float_kind::hex_without_prefix;
+            return read_hex(range);
         }
         if (!allowed_hex && allowed_nonhex) {
             // only nonhex allowed:
@@ -4078,7 +4065,10 @@ private:
 
         if (auto r = read_hex_prefix(range); SCN_UNLIKELY(r)) {
             m_kind = float_kind::hex_with_prefix;
-            return read_hex(ranges::subrange{*r, range.end()});
+            if (auto hex = read_hex(ranges::subrange{*r, range.end()})) {
+                return *hex;
+            }
+            // no digits after the prefix: only the '0' can match
         }
 
         m_kind = float_kind::generic;
-- 
2.43.0


From 6428cf7dbd3605f8f88e8504e49e52a9ef058c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:20 +0000
Subject: [PATCH 03/67] fix: whitespace that is split between two segments of a
 source, or next to ill-formed bytes, is recognised as in a contiguous source

---
 src/scn/impl.h | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index baed486..d147fb6 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2161,12 +2161,14 @@ auto read_until_code_point(Range range, function_ref<bool(char32_t)> pred)
     while (it != range.end()) {
         const auto val =
             read_code_point_into(ranges::subrange{it, range.end()});
-        if (SCN_LIKELY(val.is_valid())) {
-            const auto cp = detail::decode_code_point_exhaustive(
-                std::basic_string_view<detail::char_t<Range>>{val.codepoint});
-            if (pred(cp)) {
-                return it;
-            }
+        const auto cp =
+            SCN_LIKELY(val.is_valid())
+                ? detail::decode_code_point_exhaustive(
+                      std::basic_string_view<detail::char_t<Range>>{
+                          val.codepoint})
+                : detail::invalid_code_point;
+        if (pred(cp)) {
+            return it;
         }
         it = val.iterator;
     }
@@ -2181,6 +2183,23 @@ auto read_while_code_point(Range range, function_ref<bool(char32_t)> pred)
     return read_until_code_point(range, std::not_fn(pred));
 }
 
+// Drop an incomplete code point from the end of a segment
+inline std::string_view remove_incomplete_code_point_suffix(
+    std::string_view segment)
+{
+    for (std::size_t n = 1; n <= 3 && n <= segment.size(); ++n) {
+        const auto len = detail::code_point_length_by_starting_code_unit(
+            segment[segment.size() - n]);
+        if (len > n) {
+            return segment.substr(0, segment.size() - n);
+        }
+        if (len != 0) {
+            break;
+        }
+    }
+    return segment;
+}
+
 template <typename Range>
 auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
 {
@@ -2196,7 +2215,8 @@ auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg = remove_incomplete_code_point_suffix(
+                get_contiguous_beginning(range));
             if (auto seg_it = find_classic_space_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
@@ -2225,7 +2245,8 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg = remove_incomplete_code_point_suffix(
+                get_contiguous_beginning(range));
             if (auto seg_it = find_classic_nonspace_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
@@ -2233,9 +2254,9 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
             ranges::advance(it, seg.size());
         }
 
-        return read_while_code_point(range, [](char32_t cp) noexcept {
-            return detail::is_cp_space(cp);
-        });
+        return read_while_code_point(
+            ranges::subrange{it, range.end()},
+            [](char32_t cp) noexcept { return detail::is_cp_space(cp); });
     }
 }
 
-- 
2.43.0


From a28e415e462fdb7107ec7f44204465f791877653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:20 +0000
Subject: [PATCH 04/67] fix: failing before anything was read from a FILE no
 longer trips an assertion when syncing

---
 src/scn/impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index d147fb6..f862aa7 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1205,8 +1205,11 @@ bool basic_scan_file_buffer<FileInterface>::sync(std::ptrdiff_t position)
             return true;
         }
 
-        m_file.unsafe_advance_n(position - static_cast<std::ptrdiff_t>(
-                                               this->putback_buffer().size()));
+        const auto n = position - static_cast<std::ptrdiff_t>(
+                                      this->putback_buffer().size());
+        if (n != 0) {
+            m_file.unsafe_advance_n(n);
+        }
         return true;
     }
 
-- 
2.43.0


From da0eb7e94de969140277817f85ece79c3d63b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 05/67] fix: integer presentation types for char and wchar_t
 now assign the value, and {:c} is accepted for char

---
 include/scn/scan.h | 4 ++--
 src/scn/impl.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 255f789..1999b5f 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7920,8 +7920,8 @@ template <typename Handler>
 constexpr void check_char_type_specs(const format_specs& specs,
                                      Handler&& handler)
 {
-    if (specs.type > presentation_type::int_hex ||
-        specs.type == presentation_type::int_arbitrary_base) {
+    if (specs.type > presentation_type::int_hex &&
+        specs.type != presentation_type::character) {
         SCN_UNLIKELY_ATTR
         return handler.on_error("Invalid type specifier for character type");
     }
diff --git a/src/scn/impl.h b/src/scn/impl.h
index f862aa7..81c7da8 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5729,7 +5729,7 @@ public:
         reader_impl_for_int<CharT> reader{};
         signed char tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<signed char>(value);
+        value = static_cast<char>(tmp_value);
         return ret;
     }
 };
@@ -5767,7 +5767,7 @@ public:
             std::conditional_t<sizeof(wchar_t) == 2, int16_t, int32_t>;
         integer_type tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<integer_type>(value);
+        value = static_cast<wchar_t>(tmp_value);
         return ret;
     }
 };
-- 
2.43.0


From e45e981ada2c03be19caae6e254cd0516bde39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 06/67] fix: non-ASCII-insensitive prefix match: characters
 without a case must match exactly ("\x10x1f" was read as 0x1f)

---
 src/scn/impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 81c7da8..6162efd 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2339,13 +2339,17 @@ auto read_matching_string_classic(Range range, std::string_view str)
 }
 
 // Ripped from fast_float
+// Only letters have a case: other characters need to match exactly
 constexpr bool fast_streq_nocase(const char* a, const char* b, size_t len)
 {
     unsigned char running_diff{0};
     for (size_t i = 0; i < len; ++i) {
-        running_diff |= static_cast<unsigned char>(a[i] ^ b[i]);
+        const auto diff = static_cast<unsigned char>(a[i] ^ b[i]);
+        const bool is_letter = detail::is_ascii_letter(b[i]);
+        running_diff |=
+            is_letter ? static_cast<unsigned char>(diff & ~32u) : diff;
     }
-    return running_diff == 0 || running_diff == 32;
+    return running_diff == 0;
 }
 
 template <typename Range>
-- 
2.43.0


From 5bd91a6c76c858e92a2d8e2bd3b8c45e66eae3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 07/67] fix: a scan with a locale and the format string {}
 passes the locale on to the scanner

---
 src/scn/impl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 54ac718..01fbe68 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1749,7 +1749,8 @@ scan_expected<std::ptrdiff_t> vscan_internal(
     const auto argcount = args.size();
     if (is_simple_single_argument_format_string(format) && argcount == 1) {
         auto arg = args.get(0);
-        return scan_simple_single_argument(source, SCN_MOVE(args), arg);
+        return scan_simple_single_argument(source, SCN_MOVE(args), arg,
+                                           SCN_MOVE(loc));
     }
 
     auto handler = format_handler<true, CharT>{
@@ -1769,7 +1770,8 @@ scan_expected<std::ptrdiff_t> vscan_internal(
     const auto argcount = args.size();
     if (is_simple_single_argument_format_string(format) && argcount == 1) {
         auto arg = args.get(0);
-        return scan_simple_single_argument(buffer, SCN_MOVE(args), arg);
+        return scan_simple_single_argument(buffer, SCN_MOVE(args), arg,
+                                           SCN_MOVE(loc));
     }
 
     if (buffer.is_contiguous()) {
-- 
2.43.0


From 3250fbbd0c3a3695dadcc53685e212843092181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 08/67] fix: the first error of a scan is reported, not a later
 'argument list not exhausted'

---
 src/scn/impl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 01fbe68..0638095 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1452,12 +1452,14 @@ struct format_handler_base {
     void on_error(const char* msg)
     {
         SCN_UNLIKELY_ATTR
-        error = detail::unexpected_scan_error(scan_error::invalid_format_string,
-                                              msg);
+        on_error(scan_error{scan_error::invalid_format_string, msg});
     }
     void on_error(scan_error err)
     {
-        error = unexpected(err);
+        // Keep the first error
+        if (error) {
+            error = unexpected(err);
+        }
     }
 
     SCN_NODISCARD scan_expected<void> get_error() const
-- 
2.43.0


From 2318bc704c08061f653ad253a51da18dd3ecaaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 09/67] fix: bookkeeping of visited arguments when there are 64
 or more of them

---
 src/scn/impl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 0638095..53e9faa 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1410,7 +1410,7 @@ struct format_handler_base {
     format_handler_base(size_t argcount) : args_count(argcount)
     {
         if (SCN_UNLIKELY(args_count >= 64)) {
-            visited_args_upper.resize((args_count - 64) / 8);
+            visited_args_upper.resize((args_count - 64 + 7) / 8);
         }
     }
 
@@ -1428,7 +1428,7 @@ struct format_handler_base {
             }
         }
 
-        if (args_count < 64) {
+        if (visited_args_upper.empty()) {
             return;
         }
 
@@ -1442,7 +1442,7 @@ struct format_handler_base {
             last_args_count -= 8;
         }
 
-        const auto mask = static_cast<uint8_t>(1u << last_args_count) - 1;
+        const auto mask = static_cast<uint8_t>((1u << last_args_count) - 1);
         if (visited_args_upper.back() != mask) {
             return on_error({scan_error::invalid_format_string,
                              "Argument list not exhausted"});
-- 
2.43.0


From c555906a6be4df1449c7512c6c39643b74748111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 10/67] fix: parse floats with strtod_l on current glibc,
 instead of switching the process-wide C locale

---
 src/scn/impl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 53e9faa..3090705 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -88,8 +88,13 @@ SCN_GCC_POP
 
 #if !((__GLIBC__ > 2) || ((__GLIBC__ == 2) && (__GLIBC_MINOR__ > 25)))
 #include <xlocale.h>
-#define SCN_XLOCALE SCN_XLOCALE_POSIX
+#else
+// No <xlocale.h> in glibc >= 2.26, the *_l functions are in the usual headers
+#include <locale.h>
+#include <stdlib.h>
+#include <wchar.h>
 #endif  // __GLIBC__ <= 2.25
+#define SCN_XLOCALE SCN_XLOCALE_POSIX
 
 #elif defined(__FreeBSD_version) && __FreeBSD_version >= 1000010
 
-- 
2.43.0


From d80a850a52f58d51997a2dac77e591455c855d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 11/67] fix: non-Latin1 fill characters in a wide format string

---
 include/scn/scan.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 1999b5f..9c45447 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6916,6 +6916,7 @@ public:
             m_data[0] = static_cast<char>(static_cast<unsigned>(s.front()));
             m_data[1] =
                 static_cast<char>(static_cast<unsigned>(s.front()) >> 8);
+            m_size = static_cast<unsigned char>(s.size() * sizeof(CharT));
             if (s.size() == 1) {
                 return;
             }
@@ -6928,6 +6929,7 @@ public:
             m_data[1] = static_cast<char>(front >> 8);
             m_data[2] = static_cast<char>(front >> 16);
             m_data[3] = static_cast<char>(front >> 24);
+            m_size = static_cast<unsigned char>(sizeof(CharT));
         }
     }
 
@@ -6948,7 +6950,7 @@ public:
     template <typename CharT>
     std::basic_string_view<CharT> get_code_units() const
     {
-        return {reinterpret_cast<const CharT*>(m_data), m_size};
+        return {reinterpret_cast<const CharT*>(m_data), m_size / sizeof(CharT)};
     }
 
 private:
-- 
2.43.0


From fcb8f584cad3b7efb72a4f1792be1085176defd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 12/67] fix: nested scan of a context range: no lost, repeated
 or out-of-range characters at segment boundaries

---
 include/scn/scan.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 9c45447..085f34a 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5128,8 +5128,11 @@ public:
           m_starting_pos(starting_pos)
     {
         this->m_current_view = other.get_segment_starting_at(starting_pos);
-        m_fill_needs_to_propagate = other.get_segment_starting_at(0).end() ==
-                                    this->m_current_view.end();
+        // If we're starting from the putback buffer of other,
+        // its current view still comes after that
+        m_fill_needs_to_propagate =
+            starting_pos >=
+            static_cast<std::ptrdiff_t>(other.putback_buffer().size());
     }
 
     basic_scan_ref_buffer(std::basic_string_view<CharT> view)
@@ -5146,9 +5149,16 @@ public:
 
         if (m_fill_needs_to_propagate) {
             auto ret = m_other->fill();
-            this->m_current_view = m_other->current_view();
-            this->m_putback_buffer =
-                m_other->putback_buffer().substr(m_starting_pos);
+            const auto& putback = m_other->putback_buffer();
+            if (m_starting_pos < static_cast<std::ptrdiff_t>(putback.size())) {
+                this->m_current_view = m_other->current_view();
+                this->m_putback_buffer = putback.substr(m_starting_pos);
+            }
+            else {
+                this->m_current_view =
+                    m_other->get_segment_starting_at(m_starting_pos);
+                this->m_putback_buffer.clear();
+            }
             return ret;
         }
 
-- 
2.43.0


From a8d4a9692673adfc6ebaf212bc135d7e0ca5315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 13/67] fix: keep holding the FILE lock while characters are
 put back

---
 include/scn/scan.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 085f34a..7da19cf 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4947,14 +4947,10 @@ struct posix_stdio_file_interface : stdio_file_interface_base<File> {
         return static_cast<char>(res);
     }
 
-    void prepare_putback()
-    {
-        unlock();
-    }
-    void finalize_putback()
-    {
-        lock();
-    }
+    // The lock taken with flockfile is recursive:
+    // keep holding it, so that no-one gets to see a partial putback
+    void prepare_putback() {}
+    void finalize_putback() {}
 
     bool putback(char ch)
     {
-- 
2.43.0


From 3ad7c5754292ef8801f917aeec2236772632e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 14/67] fix: reject overlong and surrogate encodings as
 ill-formed

---
 include/scn/scan.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 7da19cf..3450e9f 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4111,6 +4111,10 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         char32_t cp{};
         cp |= (static_cast<char32_t>(input[0]) & 0x1f) << 6;
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 0;
+        if (SCN_UNLIKELY(cp < 0x80)) {
+            // overlong
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4129,6 +4133,10 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         cp |= (static_cast<char32_t>(input[0]) & 0x0f) << 12;
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 6;
         cp |= (static_cast<char32_t>(input[2]) & 0x3f) << 0;
+        if (SCN_UNLIKELY(cp < 0x800 || (cp >= 0xd800 && cp <= 0xdfff))) {
+            // overlong or surrogate
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4153,6 +4161,10 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 12;
         cp |= (static_cast<char32_t>(input[2]) & 0x3f) << 6;
         cp |= (static_cast<char32_t>(input[3]) & 0x3f) << 0;
+        if (SCN_UNLIKELY(cp < 0x10000 || cp >= invalid_code_point)) {
+            // overlong or out of range
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4280,7 +4292,8 @@ inline constexpr char32_t decode_code_point_exhaustive(
     else {
         SCN_EXPECT(input.size() == 1);
         auto cp = static_cast<char32_t>(input.front());
-        if (SCN_UNLIKELY(cp >= invalid_code_point)) {
+        if (SCN_UNLIKELY(cp >= invalid_code_point ||
+                         (cp >= 0xd800 && cp <= 0xdfff))) {
             return invalid_code_point;
         }
         return cp;
-- 
2.43.0


From a83e026520bff56abb500db1f3d099723525bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:57 +0000
Subject: [PATCH 15/67] fix: a value that continues past the current segment of
 a FILE or forward range is no longer cut off

---
 src/scn/impl.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 6162efd..63f5942 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -996,11 +996,9 @@ bool is_segment_contiguous(Range r)
                    ranges::end(r).contiguous_segment().end();
         }
         else {
-            if (beg.stores_parent()) {
-                return beg.contiguous_segment().end() ==
-                       beg.parent()->current_view().end();
-            }
-            return true;
+            // If there's a parent buffer, there may be more to read from it
+            // after its current view
+            return !beg.stores_parent();
         }
     }
     else {
-- 
2.43.0


From 3d8dfe2436047c59631f0c34a171b191f031e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:57 +0000
Subject: [PATCH 16/67] fix: non-ASCII literal characters in a narrow format
 string can be matched

---
 src/scn/impl.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 3090705..e6b35ce 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1630,15 +1630,27 @@ struct format_handler : format_handler_base {
                         detail::to_address(end)));
                 // (-1 because of the for loop ++begin)
                 begin = detail::to_address(begin_it) - 1;
-                continue;
             }
-
-            if (*it != *begin) {
-                SCN_UNLIKELY_ATTR
-                return on_error({scan_error::invalid_literal,
-                                 "Unexpected literal character in source"});
+            else {
+                // Match every code unit of the code point
+                const auto cp_end = detail::to_address(after_space_it);
+                for (; begin != cp_end; ++begin, (void)++it) {
+                    if (impl::is_range_eof(it, get_ctx().end())) {
+                        SCN_UNLIKELY_ATTR
+                        return on_error({scan_error::invalid_literal,
+                                         "Unexpected end of source"});
+                    }
+                    if (*it != *begin) {
+                        SCN_UNLIKELY_ATTR
+                        return on_error(
+                            {scan_error::invalid_literal,
+                             "Unexpected literal character in source"});
+                    }
+                }
+                get_ctx().advance_to(it);
+                // (-1 because of the for loop ++begin)
+                --begin;
             }
-            get_ctx().advance_to(ranges::next(it));
         }
     }
 
-- 
2.43.0


From 03f2864a79dadd63437c14e45c0cf480004dc1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:21 +0000
Subject: [PATCH 17/67] fix: unsigned 64-bit overflow is detected for all
 20-digit (and longest in other bases) integers, not only those that wrap to a
 small value

---
 src/scn/impl.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index e6b35ce..389172d 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1056,6 +1056,7 @@ SCN_FORCE_INLINE constexpr size_t min_safe_u64(int base)
 template <typename T>
 constexpr bool check_integer_overflow(uint64_t val,
                                       size_t digits_count,
+                                      uint64_t leading_digit,
                                       int base,
                                       bool is_negative)
 {
@@ -1063,8 +1064,15 @@ constexpr bool check_integer_overflow(uint64_t val,
     if (digits_count > max_digits) {
         return true;
     }
-    if (digits_count == max_digits && val < min_safe_u64(base)) {
-        return true;
+    if (digits_count == max_digits) {
+        // val may have wrapped around, possibly more than once:
+        // the value of the leading digit alone has to fit,
+        // and adding the other digits to it mustn't make it smaller
+        const uint64_t min_safe = min_safe_u64(base);
+        if (leading_digit > std::numeric_limits<uint64_t>::max() / min_safe ||
+            val < leading_digit * min_safe) {
+            return true;
+        }
     }
     if constexpr (!std::is_same_v<T, uint64_t>) {
         if (val > static_cast<uint64_t>(std::numeric_limits<T>::max()) +
@@ -1077,6 +1085,13 @@ constexpr bool check_integer_overflow(uint64_t val,
     return false;
 }
 
+template <typename CharT>
+constexpr uint64_t leading_digit_value(std::basic_string_view<CharT> digits)
+{
+    return digits.empty() ? 0
+                          : static_cast<uint64_t>(char_to_int(digits.front()));
+}
+
 template <typename T>
 constexpr T store_result(uint64_t u64val, bool is_negative)
 {
@@ -1103,7 +1118,9 @@ auto parse_decimal_integer_fast(std::string_view input,
 
     auto digits_count = static_cast<size_t>(ptr - input.data());
     if (SCN_UNLIKELY(
-            check_integer_overflow<T>(u64val, digits_count, 10, is_negative))) {
+            check_integer_overflow<T>(u64val, digits_count,
+                                      leading_digit_value(input), 10,
+                                      is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
                         : scan_error::value_positive_overflow,
@@ -1135,7 +1152,8 @@ auto parse_regular_integer(std::basic_string_view<CharT> input,
     }
 
     auto digits_count = static_cast<size_t>(begin - input.data());
-    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count, base,
+    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count,
+                                               leading_digit_value(input), base,
                                                is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
@@ -1237,7 +1255,8 @@ void parse_integer_value_exhaustive_valid(std::string_view source, T& value)
     {
         auto digits_count = static_cast<size_t>(p - source.data());
         SCN_UNUSED(digits_count);
-        SCN_EXPECT(check_integer_overflow<T>(u64val, digits_count, 10,
+        SCN_EXPECT(check_integer_overflow<T>(u64val, digits_count,
+                                             leading_digit_value(source), 10,
                                              negative_sign) == false);
     }
 
-- 
2.43.0


From 5de3ff825c236428cd1c436c9cd8852f0bffeabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:38 +0000
Subject: [PATCH 18/67] fix: leading zeroes in scan_int_exhaustive_valid no
 longer trip its overflow assertion

---
 src/scn/impl.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 389172d..7786b12 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1253,10 +1253,12 @@ void parse_integer_value_exhaustive_valid(std::string_view source, T& value)
     SCN_EXPECT(p == end);
 
     {
-        auto digits_count = static_cast<size_t>(p - source.data());
-        SCN_UNUSED(digits_count);
-        SCN_EXPECT(check_integer_overflow<T>(u64val, digits_count,
-                                             leading_digit_value(source), 10,
+        // Leading zeroes don't count
+        auto digits = source.substr(
+            (std::min)(source.find_first_not_of('0'), source.size()));
+        SCN_UNUSED(digits);
+        SCN_EXPECT(check_integer_overflow<T>(u64val, digits.size(),
+                                             leading_digit_value(digits), 10,
                                              negative_sign) == false);
     }
 
-- 
2.43.0


From 76de88fe416a13a0414c8d02b2fe0c095624b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:19 +0000
Subject: [PATCH 19/67] fix: a character set range from ASCII to beyond it
 includes its ASCII part

---
 include/scn/scan.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 3450e9f..dc2ec99 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7098,16 +7098,14 @@ public:
         const auto end_value = static_cast<unsigned>(end);
         SCN_EXPECT(begin_value < end_value);
 
-        if (SCN_LIKELY(end_value <= 127)) {
-            // No need to bit-twiddle with a mask, because with the
-            // SCN_ASSUME, -O3 will optimize this to a single operation
-            SCN_ASSUME(begin_value < end_value);
-            for (auto v = begin_value; v != end_value; ++v) {
-                m_specs.charset_literals[v / 8] |=
-                    static_cast<unsigned char>(1ul << (v % 8));
-            }
-        }
-        else {
+        // The part of the range that's ASCII is stored in charset_literals,
+        // anything beyond that is looked up from the string
+        const auto ascii_end = end_value < 128u ? end_value : 128u;
+        for (auto v = begin_value; v < ascii_end; ++v) {
+            m_specs.charset_literals[v / 8] |=
+                static_cast<unsigned char>(1ul << (v % 8));
+        }
+        if (end_value > 128u) {
             m_specs.charset_has_nonascii = true;
         }
     }
-- 
2.43.0


From 0eb1d4cd73628f064f48d4e48f86bf0dcdd5e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:52 +0000
Subject: [PATCH 20/67] fix: ranges, discards and derived scanners of bool,
 char32_t, void* (and wchar_t from narrow text) link

---
 src/scn/impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 7786b12..07019b1 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -262,6 +262,9 @@ scan_expected<ranges::iterator_t<Range>> internal_skip_classic_whitespace(
 
 #define SCN_DEFINE_SCANNER_SCAN_FOR_CTX(Context)                    \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(Context::char_type, Context)   \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(char32_t, Context)             \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(bool, Context)                 \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(void*, Context)                \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(signed char, Context)          \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(short, Context)                \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(int, Context)                  \
@@ -286,6 +289,7 @@ scan_expected<ranges::iterator_t<Range>> internal_skip_classic_whitespace(
 
 SCN_DEFINE_SCANNER_SCAN_FOR_CTX(scan_context)
 SCN_DEFINE_SCANNER_SCAN_FOR_CTX(wscan_context)
+SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(wchar_t, scan_context)
 
 /////////////////////////////////////////////////////////////////
 // scan_buffer implementations
-- 
2.43.0


From c3b80cdf9e9fe4c6c99e4aa9c4852df36de1c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 21/67] fix: formats of weekday, day, month, year and their
 combinations are checked against that type (an assertion failed when the
 format did not set the field)

---
 include/scn/chrono.h | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index cb25ac5..04d76c6 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1232,6 +1232,7 @@ struct tm_format_checker {
         if (!always_supports_field<T, field_tags::mon>::value) {
             on_error("Months not supported with this type");
         }
+        st.set_mon(*this);
     }
     constexpr void on_dec_month(numeric_system = numeric_system::standard)
     {
@@ -1550,7 +1551,7 @@ struct scanner<datetime_components, CharT>
 
 namespace detail {
 
-template <typename CharT>
+template <typename CharT, typename T = datetime_components>
 struct chrono_component_scanner
     : protected chrono_datetime_scanner<CharT, datetime_components> {
 private:
@@ -1563,7 +1564,9 @@ public:
         if (pctx.begin() == pctx.end() || *pctx.begin() == CharT{'}'}) {
             pctx.on_error("Default format not supported for this type");
         }
-        return base::parse(pctx);
+        // Check the format against T, not against datetime_components: every
+        // field required by T must be set by it
+        return detail::chrono_parse_impl<T, CharT>(pctx, base::m_fmt_str);
     }
 };
 
@@ -1571,13 +1574,13 @@ public:
 
 template <typename CharT>
 struct scanner<weekday, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, weekday> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(weekday& wd,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, weekday>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1588,12 +1591,12 @@ struct scanner<weekday, CharT>
 };
 
 template <typename CharT>
-struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT> {
+struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT, day> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(day& d, Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, day>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1604,12 +1607,12 @@ struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT> {
 };
 
 template <typename CharT>
-struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT> {
+struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT, month> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(month& m, Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, month>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1620,12 +1623,12 @@ struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT> {
 };
 
 template <typename CharT>
-struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT> {
+struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT, year> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(year& y, Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, year>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1637,13 +1640,13 @@ struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT> {
 
 template <typename CharT>
 struct scanner<month_day, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, month_day> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(month_day& md,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, month_day>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1657,13 +1660,13 @@ struct scanner<month_day, CharT>
 
 template <typename CharT>
 struct scanner<year_month, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, year_month> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(year_month& ym,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, year_month>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1677,13 +1680,13 @@ struct scanner<year_month, CharT>
 
 template <typename CharT>
 struct scanner<year_month_day, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, year_month_day> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(year_month_day& ymd,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, year_month_day>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
-- 
2.43.0


From 93801ec5dd455dc01ca94134da21168a4f0c9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 22/67] fix: a non-ASCII literal in a chrono format no longer
 skips the character behind it (and reads past the end of the format)

---
 include/scn/chrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 04d76c6..34abcd3 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -432,8 +432,8 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                     handler.on_text(begin, cp_start_p);
                     handler.on_whitespace();
                     begin = p;
-                    continue;
                 }
+                continue;
             }
             ++p;
             continue;
-- 
2.43.0


From a2e7cae0af9ae5dca1433d1fccdc25b0897c0a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 23/67] fix: %y, %C and %j of datetime_components (years came
 out as 2000 or 0, days of the year above 7 were rejected)

---
 src/scn/impl.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 07019b1..2a80290 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2448,12 +2448,9 @@ struct datetime_setter<datetime_components> {
                             setter_state& st,
                             int c)
     {
-        if (!t.year) {
-            t.year = c * 100;
-        }
-        else {
-            t.year = *t.year + c * 100;
-        }
+        // Combined in handle_short_year_and_century
+        t.year = c * 100;
+        st.century_value = static_cast<unsigned char>(c);
         st.set_century(h);
     }
     template <typename Handler>
@@ -2462,12 +2459,13 @@ struct datetime_setter<datetime_components> {
                                setter_state& st,
                                int y)
     {
-        if (!t.year) {
-            t.year = y;
-        }
-        else {
-            t.year = *t.year + y;
+        if (SCN_UNLIKELY(y < 0 || y > 99)) {
+            return h.set_error(
+                {scan_error::invalid_scanned_value, "Invalid value for year"});
         }
+        // Combined in handle_short_year_and_century
+        t.year = y;
+        st.short_year_value = static_cast<unsigned char>(y);
         st.set_short_year(h);
     }
     template <typename Handler>
@@ -2489,7 +2487,7 @@ struct datetime_setter<datetime_components> {
                          setter_state& st,
                          int d)
     {
-        if (SCN_UNLIKELY(d < 0 || d > 6)) {
+        if (SCN_UNLIKELY(d < 0 || d > 365)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for yday"});
         }
-- 
2.43.0


From d1242297242633fe84b0c19a6ef7ddce95ce7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 24/67] fix: %c and %r can be scanned, and two or three kinds
 of day together are rejected alike

---
 include/scn/chrono.h |  6 +++---
 src/scn/impl.cpp     | 22 +++++++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 34abcd3..3df1dfb 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -826,8 +826,7 @@ struct setter_state {
                 {scan_error::invalid_format_string,
                  "tzoff (%z) can't be used together with tzname (%Z)"});
         }
-        if ((wday_set || mday_set || yday_set) &&
-            !(wday_set ^ mday_set ^ yday_set)) {
+        if (wday_set + mday_set + yday_set > 1) {
             return handler.set_error(
                 {scan_error::invalid_format_string,
                  "Only up to one of wday (%a/%u/%w), mday "
@@ -1379,9 +1378,10 @@ struct tm_format_checker {
     }
     constexpr void on_loc_12_hour_time()
     {
-        on_24_hour();
+        on_12_hour();
         on_minute();
         on_second();
+        on_am_pm();
     }
     constexpr void on_24_hour_time()
     {
diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 2a80290..899b72a 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2945,6 +2945,14 @@ public:
         }
 #endif
 
+        if (auto d = read_classic_weekday_name()) {
+            return setter::set_wday(*this, m_tm, m_st, *d);
+        }
+        return set_error(
+            {scan_error::invalid_scanned_value, "Invalid weekday name"});
+    }
+    std::optional<int> read_classic_weekday_name()
+    {
         std::array<std::pair<std::string_view, int>, 7> long_mapping = {{
             {"Sunday", 0},
             {"Monday", 1},
@@ -2955,7 +2963,7 @@ public:
             {"Saturday", 6},
         }};
         if (auto d = try_one_of_str_nocase(long_mapping)) {
-            return setter::set_wday(*this, m_tm, m_st, *d);
+            return d;
         }
         std::array<std::pair<std::string_view, int>, 7> short_mapping = {{
             {"Sun", 0},
@@ -2966,11 +2974,7 @@ public:
             {"Fri", 5},
             {"Sat", 6},
         }};
-        if (auto d = try_one_of_str_nocase(short_mapping)) {
-            return setter::set_wday(*this, m_tm, m_st, *d);
-        }
-        return set_error(
-            {scan_error::invalid_scanned_value, "Invalid weekday name"});
+        return try_one_of_str_nocase(short_mapping);
     }
     void on_dec0_weekday(numeric_system sys = numeric_system::standard)
     {
@@ -3228,7 +3232,11 @@ public:
 #endif
         // %c == %a %b %d %H:%M:%S %Y
         constexpr CharT colon = ':';
-        on_weekday_name();
+        // The day is set by the day of the month, like in the localized case
+        if (!read_classic_weekday_name()) {
+            return set_error(
+                {scan_error::invalid_scanned_value, "Invalid weekday name"});
+        }
         on_whitespace();
         on_month_name();
         on_whitespace();
-- 
2.43.0


From ae929273701ad12e9fd1a0ba0701dd31d872f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 25/67] fix: %u is 1 for Monday to 7 for Sunday (days came out
 one too early, 0 was accepted), %OW is a week number

---
 include/scn/chrono.h |  3 +++
 src/scn/impl.cpp     | 16 +++++++---------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 3df1dfb..57dc97e 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -681,6 +681,9 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                         handler.on_dec0_weekday(numeric_system::alternative_o);
                         break;
                     case CharT{'W'}:
+                        handler.on_dec1_week_of_year();
+                        break;
+                    case CharT{'u'}:
                         handler.on_dec1_weekday(numeric_system::alternative_o);
                         break;
                     case CharT{'y'}:
diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 899b72a..e633b63 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2992,24 +2992,22 @@ public:
     }
     void on_dec1_weekday(numeric_system sys = numeric_system::standard)
     {
-        auto adjust_wday = [](int d) {
-            if (d == 0) {
-                return 6;
-            }
-            return d - 1;
-        };
-
 #if !SCN_DISABLE_LOCALE
         if (m_st.localized && sys != numeric_system::standard) {
             if (auto t = read_localized("%Ow", L"%Ow")) {
-                setter::set_wday(*this, m_tm, m_st, adjust_wday(t->tm_wday));
+                setter::set_wday(*this, m_tm, m_st, t->tm_wday);
             }
             return;
         }
 #endif
 
+        // 1 is Monday, 7 is Sunday
         int wday = read_classic_unsigned_integer(1, 1);
-        setter::set_wday(*this, m_tm, m_st, adjust_wday(wday));
+        if (SCN_UNLIKELY(wday < 1 || wday > 7)) {
+            return set_error({scan_error::invalid_scanned_value,
+                              "Invalid value for weekday"});
+        }
+        setter::set_wday(*this, m_tm, m_st, wday % 7);
     }
 
     void on_24_hour(numeric_system sys = numeric_system::standard)
-- 
2.43.0


From 51c7275a4173d58c4c89002f785f43edb53c074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 26/67] fix: a failed %Z no longer uses the value of an error,
 and 'a.m.' is not matched by control characters

---
 src/scn/impl.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index e633b63..7d6de64 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3198,12 +3198,10 @@ public:
                 }
             }());
         if (!res) {
-            set_error(res.error());
-        }
-        else {
-            setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
+            return set_error(res.error());
         }
         m_begin = res->begin();
+        setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
     }
 
     void on_loc_datetime(numeric_system sys = numeric_system::standard)
@@ -3481,8 +3479,10 @@ private:
             while (i < options_available) {
                 const auto cmp = static_cast<unsigned>(
                     ch ^ options[i].first[chars_consumed]);
+                // Only letters have a case
                 if (options[i].first.size() <= chars_consumed ||
-                    (cmp != 0 && cmp != 32)) {
+                    (cmp != 0 &&
+                     (cmp != 32 || options[i].first[chars_consumed] == '.'))) {
                     std::rotate(options.begin() + i, options.begin() + i + 1,
                                 options.end());
                     --options_available;
-- 
2.43.0


From 240fb14d06791018f4fbff30b8a073c375cb65ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 27/67] fix: a localized date field is read at the current
 position, not at the beginning of the whole date, and month names follow L
 also without fast_float

---
 src/scn/impl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 7d6de64..6dc7959 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2843,7 +2843,7 @@ public:
 
     void on_month_name()
     {
-#if !SCN_DISABLE_FAST_FLOAT
+#if !SCN_DISABLE_LOCALE
         if (m_st.localized) {
             if (auto t = read_localized("%b", L"%b")) {
                 setter::set_mon(*this, m_tm, m_st, t->tm_mon + 1);
@@ -3554,12 +3554,12 @@ private:
             if constexpr (std::is_same_v<
                               iterator,
                               remove_cvref_t<decltype(m_range.end())>>) {
-                return std::pair{m_range.begin(), m_range.end()};
+                return std::pair{m_begin, m_range.end()};
             }
             else {
                 using common_iterator_type =
                     typename basic_scan_buffer<CharT>::common_forward_iterator;
-                return std::pair{common_iterator_type{m_range.begin()},
+                return std::pair{common_iterator_type{m_begin},
                                  common_iterator_type{m_range.end()}};
             }
         }();
-- 
2.43.0


From 73cce9883e0651aa4611b1bdac398f50f79c73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 28/67] fix: a mismatched literal in a date is an invalid
 literal, not an invalid format string

---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 6dc7959..15d8a6c 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2761,7 +2761,8 @@ public:
                 return set_error({scan_error::end_of_input, "EOF"});
             }
             if (*beg != *m_begin) {
-                return on_error("Invalid literal character");
+                return set_error({scan_error::invalid_literal,
+                                  "Invalid literal character"});
             }
             ++beg;
             ++m_begin;
-- 
2.43.0


From 33b8bcaac26049e9b91b1ba68d8b7dc02e0bb4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 29/67] fix: subseconds that round up to a whole second no
 longer trip an assertion, and %S together with %.S is rejected when the
 format is parsed

---
 include/scn/chrono.h | 1 +
 src/scn/impl.cpp     | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 57dc97e..6562411 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1331,6 +1331,7 @@ struct tm_format_checker {
             on_error(
                 "Support for strings and doubles required for sub-seconds");
         }
+        st.set_sec(*this);
         st.set_subsec(*this);
     }
 
diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 15d8a6c..136b38e 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3116,7 +3116,10 @@ public:
             return set_error(dbl_res.error());
         }
 
-        setter::set_subsec(*this, m_tm, m_st, dbl_res->value());
+        // A long row of nines is rounded to 1.0
+        setter::set_subsec(
+            *this, m_tm, m_st,
+            (std::min)(dbl_res->value(), std::nextafter(1.0, 0.0)));
 
 #else  // !SCN_DISABLE_TYPE_STRING && !SCN_DISABLE_TYPE_DOUBLE
         SCN_UNUSED(sys);
-- 
2.43.0


From 0406c7cdc9d2d41d8dd3086224eab2b0278fc075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 30/67] fix: timezone offsets are range-checked

---
 src/scn/impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 136b38e..5c1e875 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3186,6 +3186,10 @@ public:
             }
         }
 
+        if (SCN_UNLIKELY(hour > 23 || minute > 59)) {
+            return set_error({scan_error::invalid_scanned_value,
+                              "Invalid value for timezone offset"});
+        }
         setter::set_tz_offset(
             *this, m_tm, m_st,
             std::chrono::minutes{(is_minus ? -1 : 1) * (hour * 60 + minute)});
-- 
2.43.0


From 93e96fc6f285f4715c292345b687cedcc4361c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:16 +0000
Subject: [PATCH 31/67] fix: format specifications without a regex (or with L)
 for regex_matches are reported, instead of tripping an assertion

---
 include/scn/scan.h | 5 +++++
 src/scn/impl.h     | 2 --
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index dc2ec99..540e215 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7826,6 +7826,7 @@ enum class arg_type_category {
     pointer,
     boolean,
     character,
+    regex,
     custom
 };
 
@@ -7869,6 +7870,10 @@ constexpr arg_type_category get_category_for_arg_type(arg_type type)
         case arg_type::wide_string_type:
             return arg_type_category::string;
 
+        case arg_type::narrow_regex_matches_type:
+        case arg_type::wide_regex_matches_type:
+            return arg_type_category::regex;
+
         case arg_type::custom_type:
             return arg_type_category::custom;
 
diff --git a/src/scn/impl.h b/src/scn/impl.h
index 63f5942..bca9496 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4720,8 +4720,6 @@ struct regex_matches_reader
                           reader_error_handler& eh)
     {
         detail::check_regex_type_specs(specs, eh);
-        SCN_EXPECT(specs.charset_string_data != nullptr);
-        SCN_EXPECT(specs.charset_string_size > 0);
     }
 
     template <typename Range, typename DestCharT>
-- 
2.43.0


From bdea12d398b4de3176de791e0567af8b6adca079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:50 +0000
Subject: [PATCH 32/67] fix: subseconds of a time_point are rounded to
 nanoseconds, not cut off (.254893 became 254892999 ns)

---
 include/scn/chrono.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 6562411..5840b92 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -358,9 +358,10 @@ std::optional<Duration> time_since_unix_epoch(const datetime_components& dt)
     if constexpr (Duration::period::type::den > std::intmax_t{1}) {
         // Duration more precise than seconds (seconds is std::ratio<1, 1>)
         if (dt.subsec) {
+            // Rounded, most decimal fractions aren't exact in binary
             auto subsec_in_ns =
                 std::chrono::nanoseconds{static_cast<std::int64_t>(
-                    *dt.subsec * static_cast<double>(std::nano::den))};
+                    *dt.subsec * static_cast<double>(std::nano::den) + 0.5)};
             return std::chrono::duration_cast<Duration>(time + subsec_in_ns);
         }
     }
-- 
2.43.0


From c6013ad4cacf229a7cf3c05c4b6590298be5442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:36 +0000
Subject: [PATCH 33/67] fix: non-ASCII whitespace in a wide chrono format
 matches whitespace, as in a narrow one

---
 include/scn/chrono.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 5840b92..b40d131 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -415,8 +415,8 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                 handler.on_error("Invalid literal character");
                 return p;
             }
-            if (cp_len > 1) {
-                // Multi code unit code point,
+            if (cp_len > 1 || sizeof(CharT) > 1) {
+                // Multi code unit code point (or a wide one),
                 // possible space
                 auto cp_start_p = p;
                 CharT buffer[4] = {};
-- 
2.43.0


From 5c4b5b0db410d9890b0e48fbe5edc23156ba5c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:59 +0000
Subject: [PATCH 34/67] fix: a left- or center-aligned string without a type
 ends at a fill character, as documented and as with s

---
 src/scn/impl.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index bca9496..85e54d7 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5270,9 +5270,6 @@ public:
 
         switch (specs.type) {
             case detail::presentation_type::none:
-                m_type = reader_type::word;
-                break;
-
             case detail::presentation_type::string: {
                 if (specs.align == detail::align_type::left ||
                     specs.align == detail::align_type::center) {
-- 
2.43.0


From de95a735504cb54dbb61ea3cd33920acf2daa6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:14 +0000
Subject: [PATCH 35/67] fix: an integer presentation of a character type skips
 leading whitespace, as documented

---
 src/scn/impl.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 85e54d7..9702de3 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5673,11 +5673,14 @@ public:
 
     bool skip_ws_before_read() const
     {
-        return false;
+        return m_is_integer;
     }
 
-    static scan_expected<void> check_specs(const detail::format_specs& specs)
+    scan_expected<void> check_specs(const detail::format_specs& specs)
     {
+        m_is_integer = specs.type != detail::presentation_type::none &&
+                       specs.type != detail::presentation_type::character;
+
         reader_error_handler eh{};
         if constexpr (std::is_same_v<ValueCharT, char32_t>) {
             detail::check_code_point_type_specs(specs, eh);
@@ -5691,6 +5694,9 @@ public:
         }
         return {};
     }
+
+private:
+    bool m_is_integer{false};
 };
 
 template <typename CharT>
-- 
2.43.0


From d0be45f58f7aee5996fb2ce777d4019e25b71d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:25 +0000
Subject: [PATCH 36/67] fix: whitespace in the format string matches no
 whitespace at the end of the source, too

---
 src/scn/impl.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 5c1e875..7e30c89 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1631,11 +1631,6 @@ struct format_handler : format_handler_base {
     {
         for (; begin != end; ++begin) {
             auto it = get_ctx().begin();
-            if (impl::is_range_eof(it, get_ctx().end())) {
-                SCN_UNLIKELY_ATTR
-                return on_error(
-                    {scan_error::invalid_literal, "Unexpected end of source"});
-            }
 
             if (auto [after_space_it, cp, is_space] = impl::is_first_char_space(
                     detail::make_string_view_from_pointers(begin, end));
-- 
2.43.0


From 749ce21e4e69e4cf266f40d952419813230a6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:15 +0000
Subject: [PATCH 37/67] fix: regex_matches fields don't skip leading
 whitespace, like regex string fields

---
 src/scn/impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 9702de3..303a047 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4716,6 +4716,11 @@ inline std::wstring get_unescaped_regex_pattern(std::wstring_view pattern)
 template <typename SourceCharT>
 struct regex_matches_reader
     : public reader_base<regex_matches_reader<SourceCharT>, SourceCharT> {
+    constexpr bool skip_ws_before_read() const
+    {
+        return false;
+    }
+
     void check_specs_impl(const detail::format_specs& specs,
                           reader_error_handler& eh)
     {
-- 
2.43.0


From 26c84b621605f7e8f0006b1eaf78625c318795aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:15 +0000
Subject: [PATCH 38/67] fix: '.' doesn't match a newline without /s with the
 Boost regex backend

---
 src/scn/impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 303a047..33834ff 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4353,6 +4353,9 @@ constexpr auto make_regex_flags(detail::regex_flags flags)
         detail::regex_flags::none) {
         result |= boost::regex_constants::mod_s;
     }
+    else {
+        result |= boost::regex_constants::no_mod_s;
+    }
     if ((flags & detail::regex_flags::nocase) != detail::regex_flags::none) {
         result |= boost::regex_constants::icase;
     }
-- 
2.43.0


From a1a865b7c597187a014da9b6b6310d998a42bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:15 +0000
Subject: [PATCH 39/67] fix: only named groups get a name in regex_matches with
 the Boost regex backend

---
 src/scn/impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 33834ff..e85a23b 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4553,7 +4553,9 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
     return input.begin() + ranges::distance(input.data(), matches[0].second);
 #elif SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_BOOST
     std::vector<std::basic_string<CharT>> names;
-    for (size_t i = 0; i < pattern.size();) {
+    const bool has_captures = (flags & detail::regex_flags::nocapture) ==
+                              detail::regex_flags::none;
+    for (size_t i = 0; has_captures && i < pattern.size();) {
         if constexpr (std::is_same_v<CharT, char>) {
             i = pattern.find("(?<", i);
         }
@@ -4629,7 +4631,7 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
 
             if (auto name_it = std::find_if(
                     names.begin(), names.end(),
-                    [&](const auto& name) { return match == matches[name]; });
+                    [&](const auto& name) { return &match == &matches[name]; });
                 name_it != names.end()) {
                 return basic_regex_match<CharT>{sv, *name_it};
             }
-- 
2.43.0


From e515cdf0757aa049bdf6a0b7c2a7c1b06e011f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:15 +0000
Subject: [PATCH 40/67] fix: regex string fields accept patterns with
 backreferences

---
 src/scn/impl.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index e85a23b..a2463c8 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4403,8 +4403,7 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
     std::basic_regex<CharT> re{};
     try {
         SCN_TRY(re_flags, make_regex_flags(flags));
-        re = std::basic_regex<CharT>{pattern.data(), pattern.size(),
-                                     re_flags | std::regex_constants::nosubs};
+        re = std::basic_regex<CharT>{pattern.data(), pattern.size(), re_flags};
     }
     catch (const std::regex_error& err) {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
@@ -4432,15 +4431,13 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
 #elif SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_BOOST
     auto re =
 #if SCN_REGEX_BOOST_USE_ICU
-        boost::make_u32regex(pattern.data(), pattern.data() + pattern.size(),
-                             make_regex_flags(flags) |
-                                 boost::regex_constants::no_except |
-                                 boost::regex_constants::nosubs);
+        boost::make_u32regex(
+            pattern.data(), pattern.data() + pattern.size(),
+            make_regex_flags(flags) | boost::regex_constants::no_except);
 #else
-        boost::basic_regex<CharT>{pattern.data(), pattern.size(),
-                                  make_regex_flags(flags) |
-                                      boost::regex_constants::no_except |
-                                      boost::regex_constants::nosubs};
+        boost::basic_regex<CharT>{
+            pattern.data(), pattern.size(),
+            make_regex_flags(flags) | boost::regex_constants::no_except};
 #endif
     if (re.status() != 0) {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
-- 
2.43.0


From 524e38de010d587a634f3f439b405a5b50e501e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:27 +0000
Subject: [PATCH 41/67] fix: ill-formed text or patterns with Boost.Regex and
 ICU give an error, no exception escapes

---
 src/scn/impl.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index a2463c8..6599f2e 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4429,6 +4429,13 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
 
     return input.begin() + ranges::distance(input.data(), matches[0].second);
 #elif SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_BOOST
+#if SCN_REGEX_BOOST_USE_ICU
+    if (!validate_unicode(pattern)) {
+        return detail::unexpected_scan_error(scan_error::invalid_format_string,
+                                             "Invalid encoding in regex");
+    }
+#endif
+
     auto re =
 #if SCN_REGEX_BOOST_USE_ICU
         boost::make_u32regex(
@@ -4462,6 +4469,11 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
                 "Regular expression didn't match");
         }
     }
+    catch (const std::out_of_range& err) {
+        return detail::unexpected_scan_error(
+            scan_error::invalid_scanned_value,
+            "Invalid encoding in input for regular expression");
+    }
     catch (const std::runtime_error& err) {
         return detail::unexpected_scan_error(
             scan_error::invalid_format_string,
@@ -4549,6 +4561,13 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
                    });
     return input.begin() + ranges::distance(input.data(), matches[0].second);
 #elif SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_BOOST
+#if SCN_REGEX_BOOST_USE_ICU
+    if (!validate_unicode(pattern)) {
+        return detail::unexpected_scan_error(scan_error::invalid_format_string,
+                                             "Invalid encoding in regex");
+    }
+#endif
+
     std::vector<std::basic_string<CharT>> names;
     const bool has_captures = (flags & detail::regex_flags::nocapture) ==
                               detail::regex_flags::none;
@@ -4611,6 +4630,11 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
                 "Regular expression didn't match");
         }
     }
+    catch (const std::out_of_range& err) {
+        return detail::unexpected_scan_error(
+            scan_error::invalid_scanned_value,
+            "Invalid encoding in input for regular expression");
+    }
     catch (const std::runtime_error& err) {
         return detail::unexpected_scan_error(
             scan_error::invalid_format_string,
-- 
2.43.0


From 83e903843f566710b1664c06aed9b93349aaeb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 42/67] fix: a precision dot without a number is an invalid
 format string

---
 include/scn/scan.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 540e215..ad8ea39 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7396,6 +7396,9 @@ constexpr const CharT* parse_precision(const CharT* begin,
             return begin;
         }
     }
+    else {
+        handler.on_error("Missing field precision");
+    }
     return begin;
 }
 
-- 
2.43.0


From 96a6bfc8c1b1f54848cb8c1c57055b8216cba92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 43/67] fix: '}' ends an empty format specification, and isn't
 a fill character

---
 include/scn/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index ad8ea39..d5246e2 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7301,6 +7301,10 @@ constexpr const CharT* parse_align(const CharT* begin,
 {
     SCN_EXPECT(begin != end);
 
+    if (*begin == CharT{'}'}) {
+        return begin;
+    }
+
     auto check_align = [](wchar_t ch) {
         switch (ch) {
             case L'<':
-- 
2.43.0


From 5d00f70a59113435ece3b0912aed8703a52b4d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 44/67] fix: mixing automatic and manual argument indexing is
 rejected at run time, too

---
 src/scn/impl.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 7e30c89..9a05938 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1674,16 +1674,26 @@ struct format_handler : format_handler_base {
         }
     }
 
-    constexpr std::size_t on_arg_id()
+    std::size_t on_arg_id()
     {
-        return parse_ctx.next_arg_id();
+        const auto id = parse_ctx.next_arg_id();
+        check_parse_ctx_error();
+        return id;
     }
-    constexpr std::size_t on_arg_id(std::size_t id)
+    std::size_t on_arg_id(std::size_t id)
     {
         parse_ctx.check_arg_id(id);
+        check_parse_ctx_error();
         return id;
     }
 
+    void check_parse_ctx_error()
+    {
+        if (auto err = parse_ctx.get_error(); SCN_UNLIKELY(!err)) {
+            on_error(err.error());
+        }
+    }
+
     template <typename Visitor>
     void on_visit_scan_arg(Visitor&& visitor, arg_type arg)
     {
-- 
2.43.0


From 1eb11cf35954a51a0b1c903758c3c40cfa15dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 45/67] fix: compile-time format string checking compiles with
 GCC in C++20 mode

---
 include/scn/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index d5246e2..b982abd 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6762,7 +6762,7 @@ class compile_parse_context : public basic_scan_parse_context<CharT> {
 
 public:
     template <typename Source>
-    explicit SCN_CONSTEVAL compile_parse_context(
+    explicit constexpr compile_parse_context(
         source_tag_type<Source>,
         std::basic_string_view<CharT> format_str,
         int num_args,
-- 
2.43.0


From 27151fa98daa8cb636fabb86d3f2e1ba250b0c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:29 +0000
Subject: [PATCH 46/67] fix: an error in a format specification always ends the
 scan

---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 9a05938..5806139 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1750,7 +1750,8 @@ struct format_handler : format_handler_base {
                       "Missing '}' in format string"});
             return parse_ctx.begin();
         }
-        if (SCN_UNLIKELY(!handler.get_error())) {
+        if (auto err = handler.get_error(); SCN_UNLIKELY(!err)) {
+            on_error(err.error());
             return parse_ctx.begin();
         }
         parse_ctx.advance_to(begin);
-- 
2.43.0


From 3371892699c67b1b407861863dedd717f53924c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 47/67] fix: integer presentation types for char32_t are
 rejected at compile time, too

---
 include/scn/scan.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index b982abd..83e6f23 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -9111,10 +9111,13 @@ constexpr typename ParseCtx::iterator scanner_parse_for_builtin_type(
 
         case arg_type::narrow_character_type:
         case arg_type::wide_character_type:
-        case arg_type::code_point_type:
             check_char_type_specs(specs, checker);
             break;
 
+        case arg_type::code_point_type:
+            check_code_point_type_specs(specs, checker);
+            break;
+
         case arg_type::float_type:
         case arg_type::double_type:
         case arg_type::ldouble_type:
-- 
2.43.0


From 2144965bf1cf5387403348010af73551d4468407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:58 +0000
Subject: [PATCH 48/67] fix: a null character is not a thousands separator in
 locales without grouping

---
 src/scn/impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 6599f2e..86effc7 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3469,7 +3469,8 @@ auto parse_integer_digits_with_thsep(
     auto it = range.begin();
     bool digit_matched = false;
     for (; it != range.end(); ++it) {
-        if (*it == locale_options.thousands_sep) {
+        if (locale_options.thousands_sep != 0 &&
+            *it == locale_options.thousands_sep) {
             thsep_indices.push_back(
                 static_cast<char>(ranges::distance(range.begin(), it)));
         }
-- 
2.43.0


From e3c965fec32e6f51c8820b50e658cacb5b9d2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:16 +0000
Subject: [PATCH 49/67] fix: localized floats in locales with '.' as the
 thousands separator keep their decimal point

---
 src/scn/impl.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 86effc7..6c467be 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4110,6 +4110,13 @@ private:
         }
 
         auto& str = this->m_buffer.make_into_allocated_string();
+
+        // Remove thousands separators first:
+        // they may be the same character as the '.' inserted below
+        if (m_locale_options.thousands_sep != 0) {
+            remove_thousands_separators(str);
+        }
+
         if (m_locale_options.decimal_point != CharT{'.'}) {
             for (auto& ch : str) {
                 if (ch == m_locale_options.decimal_point) {
@@ -4117,11 +4124,10 @@ private:
                 }
             }
         }
+    }
 
-        if (m_locale_options.thousands_sep == 0) {
-            return;
-        }
-
+    void remove_thousands_separators(std::basic_string<CharT>& str)
+    {
         auto first =
             std::find(str.begin(), str.end(), m_locale_options.thousands_sep);
         if (first == str.end()) {
-- 
2.43.0


From c724909d6f773867f14a22d4a21b1fa52bd91e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:16 +0000
Subject: [PATCH 50/67] fix: a localized boolean name may be a prefix of the
 other one

---
 src/scn/impl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 6c467be..a4bdaeb 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5557,14 +5557,15 @@ protected:
         const auto longer = std::pair{
             !is_truename_shorter ? truename : falsename, !is_truename_shorter};
 
-        if (auto r = read_matching_string(range, shorter.first)) {
-            value = shorter.second;
-            return *r;
-        }
+        // The shorter name can be a prefix of the longer one
         if (auto r = read_matching_string(range, longer.first)) {
             value = longer.second;
             return *r;
         }
+        if (auto r = read_matching_string(range, shorter.first)) {
+            value = shorter.second;
+            return *r;
+        }
 
         return detail::unexpected_scan_error(
             scan_error::invalid_scanned_value,
-- 
2.43.0


From 86e4fa36c0156b6db8e19f25858eb04efcf1d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:16 +0000
Subject: [PATCH 51/67] fix: values inside ranges and user-defined types use
 the locale passed to scan

---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 5806139..c6bd0af 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -239,7 +239,8 @@ scan_expected<typename Context::iterator>
 scanner_scan_for_builtin_type(T& val, Context& ctx, const format_specs& specs)
 {
     if constexpr (!detail::is_type_disabled<T>) {
-        return impl::arg_reader<Context>{ctx.range(), specs, {}}(val);
+        return impl::arg_reader<Context>{ctx.range(), specs,
+                                         ctx.locale()}(val);
     }
     else {
         SCN_EXPECT(false);
-- 
2.43.0


From 02576ad50853ece841bdce1373c01557173ca782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:25 +0000
Subject: [PATCH 52/67] fix: errors in the specification of a delegated
 built-in scanner aren't ignored

---
 include/scn/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 83e6f23..d4feecd 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -9164,6 +9164,10 @@ constexpr typename ParseCtx::iterator scanner_parse_for_builtin_type(
         }
     }
 
+    if (auto e = checker.get_error(); SCN_UNLIKELY(!e)) {
+        pctx.on_error(e.error().msg());
+    }
+
     return it;
 }
 }  // namespace detail
-- 
2.43.0


From 5e753198f6405ddf2c81148e19a715b63e20f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:25 +0000
Subject: [PATCH 53/67] fix: characters can be put back when reading with
 operator>>

---
 include/scn/istream.h | 70 +++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/include/scn/istream.h b/include/scn/istream.h
index 3fd86d1..6bd472a 100644
--- a/include/scn/istream.h
+++ b/include/scn/istream.h
@@ -72,7 +72,7 @@ public:
     using int_type = typename base::int_type;
 
     explicit basic_range_streambuf(range_type range)
-        : m_range(range), m_begin(ranges::begin(m_range)), m_begin_prev(m_begin)
+        : m_range(range), m_begin(ranges::begin(m_range))
     {
     }
 
@@ -81,67 +81,57 @@ public:
     {
         return m_begin;
     }
-    iterator begin_prev() const
-        noexcept(std::is_nothrow_copy_constructible_v<iterator>)
-    {
-        return m_begin_prev;
-    }
-    int_type last_char() const noexcept
-    {
-        return m_ch;
-    }
 
 private:
     int_type underflow() override
     {
-        // Already read
-        if (!traits_type::eq_int_type(m_ch, traits_type::eof())) {
-            return m_ch;
-        }
-
         if (m_begin == ranges::end(m_range)) {
             return traits_type::eof();
         }
-        m_begin_prev = m_begin;
-        SCN_CLANG_PUSH_IGNORE_UNSAFE_BUFFER_USAGE
-        m_ch = traits_type::to_int_type(*m_begin++);
-        SCN_CLANG_POP_IGNORE_UNSAFE_BUFFER_USAGE
-        return m_ch;
+        return traits_type::to_int_type(*m_begin);
     }
 
     int_type uflow() override
     {
         auto ret = underflow();
-        if (ret != traits_type::eof()) {
-            m_ch = traits_type::eof();
+        if (!traits_type::eq_int_type(ret, traits_type::eof())) {
+            SCN_CLANG_PUSH_IGNORE_UNSAFE_BUFFER_USAGE
+            ++m_begin;
+            SCN_CLANG_POP_IGNORE_UNSAFE_BUFFER_USAGE
+            ++m_count;
         }
         return ret;
     }
 
-    std::streamsize showmanyc() override
-    {
-        return traits_type::eq_int_type(m_ch, traits_type::eof()) ? 0 : 1;
-    }
-
     int_type pbackfail(int_type c) override
     {
-        SCN_EXPECT(traits_type::eq_int_type(c, traits_type::eof()));
-        SCN_EXPECT(!m_has_put_back);
-        m_has_put_back = true;
-
-        m_begin = m_begin_prev;
+        if (m_count == 0) {
+            return traits_type::eof();
+        }
 
-        if (m_begin == ranges::end(m_range)) {
+        // The source can't be modified:
+        // only the character that's already there can be put back
+        auto it = ranges::begin(m_range);
+        for (std::ptrdiff_t i = 1; i < m_count; ++i) {
+            SCN_CLANG_PUSH_IGNORE_UNSAFE_BUFFER_USAGE
+            ++it;
+            SCN_CLANG_POP_IGNORE_UNSAFE_BUFFER_USAGE
+        }
+        const auto ch = traits_type::to_int_type(*it);
+        if (!traits_type::eq_int_type(c, traits_type::eof()) &&
+            !traits_type::eq_int_type(c, ch)) {
             return traits_type::eof();
         }
-        return traits_type::to_int_type(0);
+
+        m_begin = it;
+        --m_count;
+        return ch;
     }
 
     range_type m_range;
     iterator m_begin;
-    iterator m_begin_prev;
-    int_type m_ch{traits_type::eof()};
-    bool m_has_put_back{false};
+    std::ptrdiff_t m_count{0};  // characters between ranges::begin(m_range)
+                                // and m_begin
 };
 
 using range_streambuf = basic_range_streambuf<scan_context::range_type>;
@@ -181,7 +171,6 @@ struct basic_istream_scanner {
     {
         detail::basic_range_streambuf<typename Context::range_type> streambuf(
             ctx.range());
-        using traits = typename decltype(streambuf)::traits_type;
         std::basic_istream<CharT> stream(std::addressof(streambuf));
 
         if (!(stream >> val)) {
@@ -201,10 +190,7 @@ struct basic_istream_scanner {
                 "Failed to read with std::istream");
         }
 
-        if (traits::eq_int_type(streambuf.last_char(), traits::eof())) {
-            return streambuf.begin();
-        }
-        return streambuf.begin_prev();
+        return streambuf.begin();
     }
 };
 
-- 
2.43.0


From cd687fff1c4a84213f414b7d1ceb0538311ca2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:44 +0000
Subject: [PATCH 54/67] fix: converting an expected doesn't construct its value
 twice

---
 include/scn/scan.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index d4feecd..d801074 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -1636,7 +1636,8 @@ public:
     explicit constexpr expected(const expected<U, G>& other) noexcept(
         std::is_nothrow_constructible_v<T, const U&> &&
         std::is_nothrow_constructible_v<E, const G&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(*other);
@@ -1654,7 +1655,8 @@ public:
     constexpr expected(const expected<U, G>& other) noexcept(
         std::is_nothrow_constructible_v<T, const U&> &&
         std::is_nothrow_constructible_v<E, const G&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(*other);
@@ -1672,7 +1674,8 @@ public:
     explicit constexpr expected(expected<U, G>&& other) noexcept(
         std::is_nothrow_constructible_v<T, U&&> &&
         std::is_nothrow_constructible_v<E, G&&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(std::move(*other));
@@ -1689,7 +1692,8 @@ public:
     constexpr expected(expected<U, G>&& other) noexcept(
         std::is_nothrow_constructible_v<T, U&&> &&
         std::is_nothrow_constructible_v<E, G&&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(std::move(*other));
-- 
2.43.0


From d8d03a90f25b3bae9fa2d719bdeed0d5ef1e43a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 55/67] fix: exceptions thrown when assigning to an expected
 propagate, and leave it intact

---
 include/scn/scan.h | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index d801074..86bf888 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -981,8 +981,7 @@ private:
 #if SCN_HAS_EXCEPTIONS
     void assign_value_over_unexpected(
         const expected_operations_base&
-            other) noexcept(std::is_nothrow_copy_constructible_v<T> ||
-                            std::is_nothrow_move_constructible_v<T>)
+            other) noexcept(std::is_nothrow_copy_constructible_v<T>)
     {
         if constexpr (std::is_nothrow_copy_constructible_v<T>) {
             this->destroy_unexpected();
@@ -994,11 +993,11 @@ private:
             this->construct(std::move(tmp));
         }
         else {
-            auto tmp = std::move(this->get_unexpecetd());
+            auto tmp = std::move(this->get_unexpected());
             this->destroy_unexpected();
 
             try {
-                this->construct(other.get());
+                this->construct(other.get_value());
             }
             catch (...) {
                 this->construct_unexpected(std::move(tmp));
@@ -1998,13 +1997,27 @@ private:
         std::is_nothrow_constructible_v<T, Args&&...>)
     {
         if (this->has_value()) {
-            this->destroy_value();
-            this->construct(std::forward<Args>(args)...);
+            if constexpr (!std::is_void_v<T> &&
+                          !std::is_nothrow_constructible_v<T, Args&&...> &&
+                          std::is_nothrow_move_constructible_v<T>) {
+                // Keep the current value, if this throws
+                T tmp(std::forward<Args>(args)...);
+                this->destroy_value();
+                this->construct(std::move(tmp));
+            }
+            else {
+                this->destroy_value();
+                this->construct(std::forward<Args>(args)...);
+            }
         }
         else {
 #if SCN_HAS_EXCEPTIONS
             if constexpr (std::is_nothrow_constructible_v<T, Args&&...>) {
-                auto tmp = std::move(error());
+                this->destroy_unexpected();
+                this->construct(std::forward<Args>(args)...);
+            }
+            else {
+                auto tmp = std::move(this->get_unexpected());
                 this->destroy_unexpected();
 
                 try {
@@ -2015,9 +2028,6 @@ private:
                     throw;
                 }
             }
-            else {
-                this->construct(std::forward<Args>(args)...);
-            }
 #else
             this->destroy_unexpected();
             this->construct(std::forward<Args>(args)...);
@@ -2027,8 +2037,7 @@ private:
 
     template <typename Value>
     void assign_value(Value&& val) noexcept(
-        std::is_nothrow_constructible_v<detail::remove_cvref_t<Value>,
-                                        Value&&> &&
+        std::is_nothrow_constructible_v<T, Value&&> &&
         std::is_nothrow_assignable_v<T, Value&&>)
     {
         if (has_value()) {
@@ -2050,6 +2059,7 @@ private:
             }
             catch (...) {
                 this->construct_unexpected(std::move(tmp));
+                throw;
             }
         }
 #else
-- 
2.43.0


From e623a5c2a6773d38dd48cb631d5d42489cc6b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:03 +0000
Subject: [PATCH 56/67] fix: localized dates don't read past the end of the
 source

The time_get facet was instantiated with an iterator that can't represent
the end, and the common iterators passed to it were sliced.
---
 src/scn/impl.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index c6bd0af..89b1c48 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3516,7 +3516,12 @@ private:
 
 #if !SCN_DISABLE_LOCALE
     struct localized_read_state {
-        using time_facet_type = std::time_get<CharT, iterator>;
+        // time_get needs a type that can be both the begin and the end
+        using time_iterator_type = std::conditional_t<
+            std::is_same_v<iterator, ranges::sentinel_t<Range>>,
+            iterator,
+            typename basic_scan_buffer<CharT>::common_forward_iterator>;
+        using time_facet_type = std::time_get<CharT, time_iterator_type>;
         using numpunct_facet_type = std::numpunct<CharT>;
 
         std::locale locale;
@@ -3565,20 +3570,11 @@ private:
         const auto& facet = *get_localized_read_state().time_facet;
         std::ios_base::iostate err{std::ios_base::goodbit};
         std::tm tm{};
-        auto [begin, end] = [&]() {
-            if constexpr (std::is_same_v<
-                              iterator,
-                              remove_cvref_t<decltype(m_range.end())>>) {
-                return std::pair{m_begin, m_range.end()};
-            }
-            else {
-                using common_iterator_type =
-                    typename basic_scan_buffer<CharT>::common_forward_iterator;
-                return std::pair{common_iterator_type{m_begin},
-                                 common_iterator_type{m_range.end()}};
-            }
-        }();
-        auto iter = facet.get(begin, end, m_loc_state->dummy_stream, err, &tm,
+        using time_iterator_type =
+            typename localized_read_state::time_iterator_type;
+        auto iter = facet.get(time_iterator_type{m_begin},
+                              time_iterator_type{m_range.end()},
+                              m_loc_state->dummy_stream, err, &tm,
                               fmt.data(), fmt.data() + fmt.size());
         if ((err & std::ios_base::failbit) != 0) {
             set_error({scan_error::invalid_scanned_value,
-- 
2.43.0


From 92f3921d4180c27f973143f2ae29ea302b070984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:03 +0000
Subject: [PATCH 57/67] fix: {:L%OI} accepts 12

---
 src/scn/impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 89b1c48..06ead13 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3037,7 +3037,9 @@ public:
 #if !SCN_DISABLE_LOCALE
         if (m_st.localized && sys != numeric_system::standard) {
             if (auto t = read_localized("%OI", L"%OI")) {
-                setter::set_hour12(*this, m_tm, m_st, t->tm_hour);
+                // tm_hour is 0 for 12 o'clock
+                setter::set_hour12(*this, m_tm, m_st,
+                                   t->tm_hour == 0 ? 12 : t->tm_hour);
             }
             return;
         }
-- 
2.43.0


From 5f45833ae46a4b24e324457dd11d4efaa8f025cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:03 +0000
Subject: [PATCH 58/67] fix: {:L%Ou} reads 1 to 7, not 0 to 6

---
 src/scn/impl.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 06ead13..3479445 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3000,16 +3000,9 @@ public:
     }
     void on_dec1_weekday(numeric_system sys = numeric_system::standard)
     {
-#if !SCN_DISABLE_LOCALE
-        if (m_st.localized && sys != numeric_system::standard) {
-            if (auto t = read_localized("%Ow", L"%Ow")) {
-                setter::set_wday(*this, m_tm, m_st, t->tm_wday);
-            }
-            return;
-        }
-#endif
-
-        // 1 is Monday, 7 is Sunday
+        // 1 is Monday, 7 is Sunday.
+        // std::time_get has no equivalent, %Ow takes 0 instead of 7
+        SCN_UNUSED(sys);
         int wday = read_classic_unsigned_integer(1, 1);
         if (SCN_UNLIKELY(wday < 1 || wday > 7)) {
             return set_error({scan_error::invalid_scanned_value,
-- 
2.43.0


From 81f44e5408a325c41c10c84df0b8669fc59c4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:28 +0000
Subject: [PATCH 59/67] fix: separators and brackets of ranges don't read past
 the end of the source

---
 include/scn/ranges.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index f592adc..b102f1b 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -153,6 +153,9 @@ scan_expected<ranges::iterator_t<Source>> scan_str(
 {
     SCN_TRY(it, internal_skip_classic_whitespace(source, false));
     for (auto ch_to_read : str_to_read) {
+        if (SCN_UNLIKELY(it == source.end())) {
+            return unexpected_scan_error(scan_error::end_of_input, "EOF");
+        }
         if (SCN_UNLIKELY(ch_to_read != *it)) {
             return unexpected_scan_error(scan_error::invalid_scanned_value,
                                          "Invalid range character");
-- 
2.43.0


From 147a7946c08278d7aa462953a2e67523a7c85757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:48 +0000
Subject: [PATCH 60/67] fix: ranges are never filled beyond their max_size()

---
 include/scn/ranges.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index b102f1b..365a5dd 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -213,14 +213,20 @@ void add_element_to_range(Range& r, Element&& elem)
 template <typename Range, typename Enable = void>
 struct has_max_size : std::false_type {};
 template <typename Range>
-struct has_max_size<Range, decltype(SCN_DECLVAL(const Range&).max_size())>
+struct has_max_size<
+    Range,
+    std::void_t<decltype(SCN_DECLVAL(const Range&).max_size())>>
     : std::true_type {};
 
 template <typename Range, typename DiffT = ranges::range_difference_t<Range>>
 DiffT range_max_size(const Range& r)
 {
     if constexpr (has_max_size<Range>::value) {
-        return static_cast<DiffT>(r.max_size());
+        const auto max_size = static_cast<std::size_t>(r.max_size());
+        constexpr auto max_diff = std::numeric_limits<DiffT>::max();
+        return max_size < static_cast<std::size_t>(max_diff)
+                   ? static_cast<DiffT>(max_size)
+                   : max_diff;
     }
     else {
         return std::numeric_limits<DiffT>::max();
-- 
2.43.0


From f7d05e95cb084651bb473f868c323ef9b1838544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:30 +0000
Subject: [PATCH 61/67] fix: ill-formed fill characters are rejected

---
 include/scn/scan.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 86bf888..d6e4517 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7372,6 +7372,11 @@ constexpr const CharT* parse_align(const CharT* begin,
         return begin_before_fill;
     }
 
+    if (SCN_UNLIKELY(decode_code_point_exhaustive(potential_fill) >=
+                     invalid_code_point)) {
+        handler.on_error("Invalid encoding in fill character");
+        return begin;
+    }
     handler.on_fill(potential_fill);
     handler.on_align(potential_align_after_fill);
     return begin;
-- 
2.43.0


From 19055295bf84e9e181aa541adcac1aa61de73757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:24 +0000
Subject: [PATCH 62/67] fix: non-Latin1 decimal points in wide localized
 subseconds

---
 src/scn/impl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 3479445..ceb3a16 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3076,7 +3076,7 @@ public:
         setter::set_sec(*this, m_tm, m_st, whole);
 
         if (!m_st.localized || sys == numeric_system::standard) {
-            if (!consume_ch('.')) {
+            if (!consume_ch(CharT{'.'})) {
                 return set_error({scan_error::invalid_scanned_value,
                                   "Expected `.` in subsecond value"});
             }
@@ -3458,12 +3458,12 @@ private:
         return accumulator;
     }
 
-    bool consume_ch(char ch)
+    bool consume_ch(CharT ch)
     {
         if (m_begin == m_range.end()) {
             return false;
         }
-        if (*m_begin == static_cast<CharT>(ch)) {
+        if (*m_begin == ch) {
             ++m_begin;
             return true;
         }
-- 
2.43.0


From e21d28ca93510bdf6a1f70eb0ea61c1041c040fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:53 +0000
Subject: [PATCH 63/67] fix: scan_result copy conversion and converting
 assignment didn't compile

---
 include/scn/scan.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index d6e4517..1b0858d 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6416,6 +6416,10 @@ public:
 
     constexpr scan_result_value_storage() = default;
 
+    constexpr scan_result_value_storage(const tuple_type& values)
+        : m_values(values)
+    {
+    }
     constexpr scan_result_value_storage(tuple_type&& values)
         : m_values(SCN_MOVE(values))
     {
@@ -6522,7 +6526,7 @@ protected:
     template <typename Other>
     void assign_range(Other&& r)
     {
-        m_range = r.m_range;
+        m_range = r.range();
     }
 
 private:
-- 
2.43.0


From 1f281c902d23db6d355200b94df7b073948771e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:26 +0000
Subject: [PATCH 64/67] fix: ill-formed characters in a chrono format were
 taken as literals

---
 include/scn/chrono.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index b40d131..a40f16b 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -428,8 +428,13 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                     buffer[i] = *p;
                     ++p;
                 }
-                if (is_cp_space(decode_code_point_exhaustive(
-                        std::basic_string_view<CharT>{buffer, cp_len}))) {
+                const auto cp = decode_code_point_exhaustive(
+                    std::basic_string_view<CharT>{buffer, cp_len});
+                if (cp >= detail::invalid_code_point) {
+                    handler.on_error("Invalid literal character");
+                    return cp_start_p;
+                }
+                if (is_cp_space(cp)) {
                     handler.on_text(begin, cp_start_p);
                     handler.on_whitespace();
                     begin = p;
-- 
2.43.0


From 0b664697c93a86be95f5bec6caa019611e52848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:20 +0000
Subject: [PATCH 65/67] fix: an assertion failed for a regex on an empty source
 in a user-defined scanner

---
 src/scn/impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index a4bdaeb..bb4c6c7 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1061,7 +1061,9 @@ auto get_contiguous_beginning(Range r)
 template <typename Range>
 auto get_as_contiguous(Range r)
 {
-    SCN_EXPECT(is_segment_contiguous(r));
+    // An empty range isn't a contiguous segment, but may still be a contiguous
+    // source
+    SCN_EXPECT(is_segment_contiguous(r) || is_entire_source_contiguous(r));
 
     if constexpr (ranges::contiguous_range<Range> &&
                   ranges::sized_range<Range>) {
-- 
2.43.0


From cb35c634d66027f9561861e284dc2cc88f7bd4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:20 +0000
Subject: [PATCH 66/67] fix: ranges and tuples could not be read from wide
 sources

---
 include/scn/ranges.h | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index 365a5dd..a8cbc8e 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -233,6 +233,20 @@ DiffT range_max_size(const Range& r)
     }
 }
 
+template <typename CharT>
+constexpr std::basic_string_view<CharT> range_literal(std::string_view narrow,
+                                                      std::wstring_view wide)
+{
+    if constexpr (std::is_same_v<CharT, wchar_t>) {
+        SCN_UNUSED(narrow);
+        return wide;
+    }
+    else {
+        SCN_UNUSED(wide);
+        return narrow;
+    }
+}
+
 template <typename CharT>
 class range_scanner_base {
 public:
@@ -250,9 +264,11 @@ public:
 protected:
     constexpr range_scanner_base() = default;
 
-    std::basic_string_view<CharT> m_separator{","};
-    std::basic_string_view<CharT> m_opening_bracket{"["};
-    std::basic_string_view<CharT> m_closing_bracket{"]"};
+    std::basic_string_view<CharT> m_separator{range_literal<CharT>(",", L",")};
+    std::basic_string_view<CharT> m_opening_bracket{
+        range_literal<CharT>("[", L"[")};
+    std::basic_string_view<CharT> m_closing_bracket{
+        range_literal<CharT>("]", L"]")};
 };
 
 template <typename CharT>
@@ -323,8 +339,9 @@ struct scanner<
 public:
     constexpr scanner()
     {
-        this->set_separator(",");
-        this->set_brackets("(", ")");
+        this->set_separator(detail::range_literal<CharT>(",", L","));
+        this->set_brackets(detail::range_literal<CharT>("(", L"("),
+                           detail::range_literal<CharT>(")", L")"));
     }
 
     template <typename ParseCtx>
@@ -493,12 +510,15 @@ private:
     constexpr void init()
     {
         if constexpr (Kind == range_format::set) {
-            m_underlying.set_brackets("{", "}");
+            m_underlying.set_brackets(range_literal<CharT>("{", L"{"),
+                                      range_literal<CharT>("}", L"}"));
         }
         else if constexpr (Kind == range_format::map) {
-            m_underlying.set_brackets("{", "}");
+            m_underlying.set_brackets(range_literal<CharT>("{", L"{"),
+                                      range_literal<CharT>("}", L"}"));
             m_underlying.base().set_brackets({}, {});
-            m_underlying.base().set_separator(":");
+            m_underlying.base().set_separator(
+                range_literal<CharT>(":", L":"));
         }
     }
 
-- 
2.43.0


From f26fe7d313994ef062a090ae6d164ce5540b8b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:35 +0000
Subject: [PATCH 67/67] fix: an unexpected that was never made was destroyed
 when copying an expected threw

---
 include/scn/scan.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 1b0858d..698212d 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -614,7 +614,7 @@ struct SCN_TRIVIAL_ABI expected_storage_base<T, E, false> {
     }
 
     explicit constexpr expected_storage_base(deferred_init_tag_t) noexcept
-        : m_has_value(false)
+        : m_has_value(false), m_initialized(false)
     {
     }
 
@@ -640,6 +640,10 @@ struct SCN_TRIVIAL_ABI expected_storage_base<T, E, false> {
 
     ~expected_storage_base()
     {
+        if (!m_initialized) {
+            // Constructing the contents threw
+            return;
+        }
         if (has_value()) {
             destroy_value();
         }
@@ -693,6 +697,7 @@ struct SCN_TRIVIAL_ABI expected_storage_base<T, E, false> {
     {
         scn::detail::construct_at(value_ptr(), std::forward<Args>(args)...);
         m_has_value = true;
+        m_initialized = true;
     }
     template <typename... Args>
     void construct_unexpected(Args&&... args) noexcept(
@@ -701,6 +706,7 @@ struct SCN_TRIVIAL_ABI expected_storage_base<T, E, false> {
         scn::detail::construct_at(unexpected_ptr(),
                                   std::forward<Args>(args)...);
         m_has_value = false;
+        m_initialized = true;
     }
 
     void destroy_value() noexcept
@@ -744,6 +750,7 @@ private:
 
     alignas(required_alignment) unsigned char m_memory[required_size];
     bool m_has_value;
+    bool m_initialized{true};
 };
 
 template <typename E>
@@ -751,7 +758,7 @@ struct SCN_TRIVIAL_ABI expected_storage_base<void, E, false> {
     constexpr expected_storage_base() noexcept : m_has_value(true) {}
 
     explicit constexpr expected_storage_base(deferred_init_tag_t) noexcept
-        : m_has_value(false)
+        : m_has_value(false), m_initialized(false)
     {
     }
 
@@ -772,7 +779,7 @@ struct SCN_TRIVIAL_ABI expected_storage_base<void, E, false> {
 
     ~expected_storage_base()
     {
-        if (!has_value()) {
+        if (m_initialized && !has_value()) {
             destroy_unexpected();
         }
     }
@@ -803,6 +810,7 @@ struct SCN_TRIVIAL_ABI expected_storage_base<void, E, false> {
     constexpr void construct(Args&&...) noexcept
     {
         m_has_value = true;
+        m_initialized = true;
     }
     template <typename... Args>
     void construct_unexpected(Args&&... args) noexcept(
@@ -811,6 +819,7 @@ struct SCN_TRIVIAL_ABI expected_storage_base<void, E, false> {
         scn::detail::construct_at(unexpected_ptr(),
                                   std::forward<Args>(args)...);
         m_has_value = false;
+        m_initialized = true;
     }
 
     static constexpr void destroy_value() noexcept {}
@@ -837,6 +846,7 @@ private:
 
     alignas(required_alignment) unsigned char m_memory[required_size];
     bool m_has_value;
+    bool m_initialized{true};
 };
 
 template <typename T, typename U>
-- 
2.43.0

