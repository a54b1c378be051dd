From 7526e41fdd08e21bc83d05fb2f5758e68b0bf03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 01/25] fix: UTF-8 to UTF-8 transcode_size stopped although the
 limit was not exceeded

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 5740082..cebb5e1 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1948,7 +1948,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         } else {
             size += 3;
         }
-        if (size >= limit) {
+        if (size > limit) {
             return {previous_size, previous_src, strf::transcode_stop_reason::insufficient_output_space};
         }
     }
-- 
2.43.0


From 0e4e9e7d08e367a0e760c7c473d90aa2df82d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 02/25] fix: UTF-8 to UTF-32 unsafe_transcode_size could stop
 in the middle of a sequence

---
 include/strf/detail/utf.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index cebb5e1..511f83a 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1671,11 +1671,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         //               :              4);
     } else {
         for (;src_it < src_end; ++src_it) {
-            if (size >= limit){
-                return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
-            }
             const unsigned ch = detail::cast_u8(*src_it);
-            size += detail::not_utf8_continuation(ch);
+            if (detail::not_utf8_continuation(ch)) {
+                if (size >= limit){
+                    return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
+                }
+                ++size;
+            }
         }
     }
     return {size, src_end, strf::transcode_stop_reason::completed};
-- 
2.43.0


From fca900792fe412d3af16ee9bad6539bcdf398cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 03/25] fix: UTF-32 transcode_size accepted negative wchar_t
 values as valid

---
 include/strf/detail/utf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 511f83a..e8913df 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -3012,13 +3012,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
     if (src_end - src <= limit) {
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
@@ -3027,7 +3027,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         const auto* src_limit = src_begin + limit;
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
@@ -3036,7 +3036,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
-- 
2.43.0


From fe4362a87a260a97f088d60b9b15a74fb4a1bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 04/25] fix: UTF-8 decode_unit returned garbage for non-ASCII
 units when char is signed

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index e8913df..158a66b 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -962,7 +962,7 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        STRF_IF_LIKELY (ch < 0x80)
+        STRF_IF_LIKELY (detail::cast_u8(ch) < 0x80)
             return static_cast<char32_t>(ch);
         return 0xFFFD;
     }
-- 
2.43.0


From dc4bd22006655efeea12ee3c6f78d3d2167fd105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 05/25] fix: cstr/array destinations lost the result pointer
 when written after truncation

do_write() on a destination that is already bad overwrote it_ with the end
of the discard buffer, so finish() returned a pointer outside of the caller's
array, and basic_cstr_destination wrote the terminator there.
---
 include/strf/destination.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/strf/destination.hpp b/include/strf/destination.hpp
index 8415cac..b8ccebd 100644
--- a/include/strf/destination.hpp
+++ b/include/strf/destination.hpp
@@ -372,6 +372,11 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
+        if (! this->good()) {
+            // it_ already holds where the output was truncated
+            this->set_buffer_ptr(garbage_buff<CharT>());
+            return;
+        }
         auto sub_count = this->buffer_space();
         auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CSTRING)
@@ -507,6 +512,11 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
+        if (! this->good()) {
+            // it_ already holds where the output was truncated
+            this->set_buffer_ptr(garbage_buff<CharT>());
+            return;
+        }
         auto sub_count = this->buffer_space();
         auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CHAR_ARRAYING)
-- 
2.43.0


From 7d8e402bb7463acb8ec983fe477bfe3f5a3aa03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 06/25] fix: streambuf writer wrote a string after a failed
 write of its buffer

do_write() passed the string to sputn() even when the pending buffer content had
been written only partially, leaving a gap in the output.
---
 include/strf/to_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index 755bc40..cc83b05 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -86,7 +86,9 @@ private:
         STRF_IF_LIKELY (this->good()) {
             this->set_good(false);
             auto count_inc = dst_.sputn(buf_, count);
-            count_inc += dst_.sputn(str,  str_slen);
+            if (count_inc == count) {
+                count_inc += dst_.sputn(str,  str_slen);
+            }
             count_ += count_inc;
             this->set_good(count_inc == count + str_slen);
         }
-- 
2.43.0


From fe1122e6c08f2c238f2a6662c3df5b81fcfb2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 07/25] fix: windows-1254 encoded six Latin-1 letters as the
 bytes of the Turkish letters that replace them

---
 include/strf/detail/single_byte_charsets.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index de410ca..be67993 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2032,6 +2032,12 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1254::encode_ext(char32_t ch) noexc
         case 0x203A: return 0x9B;
         case 0x20AC: return 0x80;
         case 0x2122: return 0x99;
+        case 0xD0:
+        case 0xDD:
+        case 0xDE:
+        case 0xF0:
+        case 0xFD:
+        case 0xFE: return 0x100;
         case 0xFFFD: return '?';
         default: return 0xA0 <= ch && ch <= 0xFF ? ch : 0x100;
     }
-- 
2.43.0


From e1cfc0eed0f160ba054ae694dfad35087d4a754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 08/25] fix: windows-1258 encoded U+009F as 0x9F, which is
 U+0178

---
 include/strf/detail/single_byte_charsets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index be67993..f213ade 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2405,7 +2405,7 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1258::encode_ext(char32_t ch) noexc
     static const ch32_to_char char_map[] =
         { {0x0081, 0x81}, {0x008A, 0x8A}, {0x008D, 0x8D}, {0x008E, 0x8E}
         , {0x008F, 0x8F}, {0x0090, 0x90}, {0x009A, 0x9A}, {0x009D, 0x9D}
-        , {0x009E, 0x9E}, {0x009F, 0x9F}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
+        , {0x009E, 0x9E}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
         , {0x00A2, 0xA2}, {0x00A3, 0xA3}, {0x00A4, 0xA4}, {0x00A5, 0xA5}
         , {0x00A6, 0xA6}, {0x00A7, 0xA7}, {0x00A8, 0xA8}, {0x00A9, 0xA9}
         , {0x00AA, 0xAA}, {0x00AB, 0xAB}, {0x00AC, 0xAC}, {0x00AD, 0xAD}
-- 
2.43.0


From 23840b48bfd18cfe90ca1aab50ef0078bed6093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 09/25] fix: transcode_size to a single-byte charset stopped at
 U+D800 and 0x110000, which transcode replaces

---
 include/strf/detail/single_byte_charsets.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index f213ade..1c800d2 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -246,7 +246,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                    if ( (*it < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +255,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                if ( (*it < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +276,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
-- 
2.43.0


From 08e2b55ac75984ce9e1a32c355b110f090f963a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 10/25] fix: negative wchar_t values were not reported as
 invalid when transcoded to a single-byte charset

---
 include/strf/detail/single_byte_charsets.hpp | 26 ++++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 1c800d2..6a118a7 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -143,14 +143,14 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (detail::cast_u32(*it) >= 0x110000) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
             }
@@ -159,7 +159,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -168,7 +168,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (detail::cast_u32(*it) >= 0x110000) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (it == src_limit) {
@@ -188,7 +188,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -198,7 +198,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (detail::cast_u32(*it) >= 0x110000) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +210,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -222,7 +222,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (detail::cast_u32(*it) >= 0x110000) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -246,7 +246,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
+                    if ( (detail::cast_u32(*it) < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +255,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if (detail::cast_u32(*it) < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
+                if ( (detail::cast_u32(*it) < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +276,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if (detail::cast_u32(*it) < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
@@ -2670,7 +2670,7 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::transcode
         unsigned ch = Impl::encode(detail::cast_u32(*src));
         STRF_IF_UNLIKELY (ch >= 0x100) {
             const bool is_invalid =
-                ( *src >= 0x110000
+                ( detail::cast_u32(*src) >= 0x110000
                || ( strf::with_strict_surrogate_policy(flags)
                  && 0xD800 <= *src
                  && *src <= 0xFFFF));
-- 
2.43.0


From e81a04fb0d749511f6dc18c6334c05158f7b66ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 11/25] fix: reserve room for all digits when printing a
 decimal integer with showsign

ensure(digcount + prefix != 0) asked for at most one unit because != binds
weaker than +, so the digits were written past the end of a nearly full buffer.
---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index eae51e1..e6440ab 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1355,7 +1355,7 @@ public:
 
     STRF_HD void operator()(strf::destination<CharT>& dst) const
     {
-        dst.ensure(data_.digcount + data_.prefix != 0);
+        dst.ensure(data_.digcount + (data_.prefix != 0));
         auto *it = dst.buffer_ptr();
         if (data_.prefix != 0) {
             *it++ = static_cast<CharT>(data_.prefix);
-- 
2.43.0


From cc67eb6c30c301d8cd46d13a6d035bc6afdd1c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 12/25] fix: sat_sub(width_t, int64) overflowed instead of
 saturating

---
 include/strf/width_t.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 736a21f..2c11b9b 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -298,9 +298,9 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_i64, std::int64_t x) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        if (x >= (cast_i64(max().value_) << 17))  {
+        if (x >= 0x10000)  {
             value_ = min().value_;
-        } else if (x <= cast_i64(cast_u64(cast_i64(min().value_)) << 17)) {
+        } else if (x <= -0x10000) {
             value_ = max().value_;
         } else {
             auto result = value_ - cast_i64(cast_u64(cast_i64(x)) << 16);
-- 
2.43.0


From 0e8f8cd4cf8fc19815684c356bd90d85c8dc1604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 13/25] fix: comparison of width_t with 16-bit integers
 overflowed

---
 include/strf/width_t.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 2c11b9b..8704847 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -413,15 +413,15 @@ public:
         return *this;
     }
 
-    constexpr STRF_HD int compare(detail::tag_i16, std::int16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_i16, std::int16_t x) const noexcept
     {
         using namespace strf::detail::cast_sugars;
-        return value_ - cast_i32(cast_u32(cast_u16(x)) << 16);
+        return cast_i64(value_) - cast_i32(cast_u32(cast_u16(x)) << 16);
     }
-    constexpr STRF_HD int compare(detail::tag_u16, std::uint16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_u16, std::uint16_t x) const noexcept
     {
         using namespace strf::detail::cast_sugars;
-        return x >= cast_u16(0x8000) ? -1 : (value_ - cast_i32(cast_u32(x) << 16));
+        return cast_i64(value_) - cast_i64(cast_u64(x) << 16);
     }
 
     constexpr STRF_HD std::int64_t compare(detail::tag_i32, std::int32_t x) const noexcept
-- 
2.43.0


From 7e10d5de1275c9157c39d4a12dcb677bc86b0e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 14/25] fix: division of negative width_t gave wrong values

---
 include/strf/width_t.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 8704847..fb0494d 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -407,8 +407,7 @@ public:
     STRF_HD width_t& operator/=(width_t other) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        const std::uint64_t vu64 = cast_u32(value_);
-        const std::int64_t tmp = cast_i64(vu64 << 16) / other.value_;
+        const std::int64_t tmp = cast_i64(value_) * 0x10000 / other.value_;
         value_ = detail::cast_i32(cast_i64(tmp));
         return *this;
     }
-- 
2.43.0


From f1f185f9a8aa1c2263c08e6a7a403600880ae6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:19 +0000
Subject: [PATCH 15/25] fix: the accumulated width saturates instead of
 overflowing

---
 include/strf/detail/premeasurements.hpp      | 4 ++--
 include/strf/detail/printable_types/char.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/premeasurements.hpp b/include/strf/detail/premeasurements.hpp
index bb325ef..84c73b7 100644
--- a/include/strf/detail/premeasurements.hpp
+++ b/include/strf/detail/premeasurements.hpp
@@ -31,7 +31,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void add_width(strf::width_t w) noexcept
     {
-        width_ += w;
+        width_.sat_add(w);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void checked_add_width(strf::width_t w) noexcept
     {
@@ -55,7 +55,7 @@ public:
     }
     constexpr STRF_HD bool remaining_width_greater_than(strf::width_t w) const noexcept
     {
-        return width_ + w < limit_;
+        return strf::sat_add(width_, w) < limit_;
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool has_remaining_width() const noexcept
     {
diff --git a/include/strf/detail/printable_types/char.hpp b/include/strf/detail/printable_types/char.hpp
index f39a9f0..4ceb6e6 100644
--- a/include/strf/detail/printable_types/char.hpp
+++ b/include/strf/detail/printable_types/char.hpp
@@ -78,7 +78,7 @@ STRF_HD void fmt_char_printer<CharT>::init_
     int fillcount = 0;
     if (content_width < afmt_.width) {
         fillcount = (afmt_.width - content_width).round();
-        pre->add_width(content_width + static_cast<strf::width_t>(fillcount));
+        pre->add_width(strf::sat_add(content_width, fillcount));
     } else {
         fillcount = 0;
         pre->add_width(content_width);
@@ -209,7 +209,7 @@ void STRF_HD fmt_conv_char32_printer<DstCharT>::init_
     alignment_ = afmt.alignment;
     if (content_width < afmt.width) {
         fillcount_ = (afmt.width - content_width).round();
-        pre->add_width(content_width + static_cast<strf::width_t>(fillcount_));
+        pre->add_width(strf::sat_add(content_width, fillcount_));
     } else {
         fillcount_ = 0;
         pre->add_width(content_width);
-- 
2.43.0


From 0abb41301404404d9e6fcf72e54d5a6cdf6e79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 16/25] fix: std_width_calc_t::str_width_and_pos measures the
 longest prefix within the limit

The returned width was the limit (not the width of the prefix) when the next
character did not fit or the limit was negative, and the prefix lost the code points that
continue its last grapheme cluster when they came after a 32 code point chunk.
---
 include/strf/detail/facets/width_calculator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index d63a7ea..31678c6 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -220,7 +220,7 @@ STRF_FUNC_IMPL STRF_HD std_width_calc_func_return std_width_calc_func
             return {0, 0, nullptr};
         }
         if (ch_width > width) {
-            return {0, 0, str -1};
+            return {width, 0, str -1};
         }
         width = 0;
         goto next_codepoint; // because there might be more codepoints in this grapheme cluster
@@ -509,13 +509,14 @@ public:
         char32_t buff32[buff32_size];
         constexpr auto flags = strf::transcode_flags::none;
         const auto to_u32 = charset.to_u32();
+        limit = limit <= 0 ? 0 : limit;
         detail::std_width_calc_func_return resw{limit, 0, nullptr};
         while(1) {
             auto res_tr = to_u32.transcode(str, str_end, buff32, buff32 + buff32_size, nullptr, flags);
             resw = detail::std_width_calc_func
                 ( buff32, res_tr.dst_ptr, resw.remaining_width, resw.state, true );
 
-            if ( resw.remaining_width <= 0 ||
+            if ( resw.ptr != res_tr.dst_ptr ||
                  res_tr.stop_reason != transcode_stop_reason::insufficient_output_space)
             {
                 const auto width = limit - resw.remaining_width;
-- 
2.43.0


From 9c03627da16adb17489df482206d228f9240fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 17/25] fix: width_as_u32len_t::str_width asserted on strings
 of 32768 or more code points

---
 include/strf/detail/facets/width_calculator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index 31678c6..1f86e11 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -134,7 +134,7 @@ public:
         STRF_ASSERT(str <= str_end);
         auto lim = limit.non_negative_ceil();
         auto res = charset.count_codepoints(str, str_end, lim);
-        STRF_ASSERT(res.count <= strf::width_max.floor());
+        STRF_ASSERT(res.count <= strf::width_max.ceil());
         return strf::width_t::sat_cast(res.count);
     }
 
-- 
2.43.0


From 22cc13ef88e26e2c3350f56ddf8173b922b84fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 18/25] fix: no_grouping ignored its decimal point, which was
 uninitialized

---
 include/strf/detail/facets/numpunct.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index 063c4b1..a2c1b79 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -595,11 +595,11 @@ public:
     }
     constexpr STRF_HD char32_t decimal_point() const noexcept
     {
-        return U'.';
+        return decimal_point_;
     }
     constexpr STRF_HD explicit operator strf::numpunct<Base> () const noexcept
     {
-        return {};
+        return strf::numpunct<Base>{}.decimal_point(decimal_point_);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD no_grouping& decimal_point(char32_t ch) & noexcept
     {
@@ -613,7 +613,7 @@ public:
     }
 
 private:
-    char32_t decimal_point_;
+    char32_t decimal_point_ = U'.';
 };
 
 template <int Base> struct numpunct_c
-- 
2.43.0


From 08e89d647017a21ee7ebb60eef7154bd7e212ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 19/25] fix: grouped binary integers overran the buffer when
 writing the highest group

---
 include/strf/detail/int_digits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/int_digits.hpp b/include/strf/detail/int_digits.hpp
index a14fcdb..224712f 100644
--- a/include/strf/detail/int_digits.hpp
+++ b/include/strf/detail/int_digits.hpp
@@ -1126,6 +1126,7 @@ public:
 
         UIntT mask = (UIntT)1 << (digcount - 1);
         auto dist = grouping.distribute(digcount);
+        dst.ensure(dist.highest_group);
         auto *oit = dst.buffer_ptr();
         auto *end = dst.buffer_end();
         while (dist.highest_group--) {
-- 
2.43.0


From c01d74bb3b53e7a5bd67ec08e8d64bbd1b0e61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 20/25] fix: separators that can not be encoded were still
 counted in the width

---
 include/strf/detail/printable_types/int.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index e6440ab..fc580b6 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1788,6 +1788,7 @@ STRF_HD fmt_int_printer_data_init_result init_punct_fmt_int_printer_data
         if (sepsize == strf::invalid_char_len) {
             data.grouping = strf::digits_grouping{};
             data.sepsize = 0;
+            data.sepcount = 0;
         } else {
             data.sepsize = static_cast<int>(sepsize);
         }
-- 
2.43.0


From 874439aabc689b40e8cb03feff4c71edd08a1b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:07 +0000
Subject: [PATCH 21/25] fix: width of a tr-string overflowed instead of
 saturating when measured

---
 include/strf/detail/tr_printer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/strf/detail/tr_printer.hpp b/include/strf/detail/tr_printer.hpp
index 2ac8fdc..bf9d226 100644
--- a/include/strf/detail/tr_printer.hpp
+++ b/include/strf/detail/tr_printer.hpp
@@ -161,7 +161,7 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_arg(std::ptrdiff_t index)
     {
         if (width_ < limit_) {
-            width_ += (index < array_size_ ? width_array_[index] : strf::width_t(1));
+            width_.sat_add(index < array_size_ ? width_array_[index] : strf::width_t(1));
             return width_ >= limit_;
         }
         return false;
@@ -169,7 +169,7 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_string(const CharT* begin, const CharT* end)
     {
         if (width_ < limit_) {
-            width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+            width_.sat_add(wcalc_.str_width(charset_, limit_ - width_, begin, end));
             return width_ >= limit_;
         }
         return false;
@@ -219,10 +219,10 @@ public:
     {
         if (index < array_size_) {
             size_ += size_array_[index];
-            width_ += width_array_[index];
+            width_.sat_add(width_array_[index]);
         } else {
             size_ += charset_.replacement_char_size();
-            width_ += 1;
+            width_.sat_add(1);
         }
         return {};
     }
@@ -230,7 +230,7 @@ public:
         ( const CharT* begin, const CharT* end )
     {
         size_ += (end - begin);
-        width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+        width_.sat_add(wcalc_.str_width(charset_, limit_ - width_, begin, end));
         return {};
     }
     STRF_HD std::ptrdiff_t accumulated_ssize() const
-- 
2.43.0


From 0bb4264fdc41056188c91737c971edd6d72dee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:07 +0000
Subject: [PATCH 22/25] fix: reserve_calc().tr() created the destination with
 the type of unsized destinations

---
 include/strf/detail/reserve_policies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/reserve_policies.hpp b/include/strf/detail/reserve_policies.hpp
index 0767317..e5e69f7 100644
--- a/include/strf/detail/reserve_policies.hpp
+++ b/include/strf/detail/reserve_policies.hpp
@@ -356,7 +356,7 @@ private:
         , std::initializer_list<const detail::polymorphic_printer<CharT>*> printers )
     {
         using dest_creator_t = detail::remove_cvref_t<DestCreator>;
-        using dest_type = typename dest_creator_t::destination_type;
+        using dest_type = typename dest_creator_t::sized_destination_type;
 
         using charset_cat = strf::charset_c<CharT>;
         auto charset = strf::get_facet<charset_cat, void>(fp);
-- 
2.43.0


From 0fb82c95c627ebf15afff665914d876837dbbfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:07 +0000
Subject: [PATCH 23/25] fix: no_reserve() and with() could not be called on an
 lvalue printing_syntax

---
 include/strf/printing_syntax.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index 9c000d5..27527dd 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -76,6 +76,7 @@ public:
     {
         const auto& self = static_cast<const this_pss_&>(*this);
         return { self.dest_creator_
+               , new_poli_{}
                , self.fpack_};
     }
 
@@ -436,7 +437,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& with() &
     {
-        return static_cast<this_pss_&&>(*this);
+        return static_cast<this_pss_&>(*this);
     }
 
     constexpr STRF_HD const this_pss_&& with() const &&
@@ -446,7 +447,7 @@ public:
 
     constexpr STRF_HD const this_pss_& with() const &
     {
-        return static_cast<const this_pss_&&>(*this);
+        return static_cast<const this_pss_&>(*this);
     }
 };
 
-- 
2.43.0


From a72fe1bb5b51cf391c398aae49e18cc9b77df8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:54 +0000
Subject: [PATCH 24/25] fix: width of an aligned join was measured wrong near
 the width limit

The width added left out the fill when the remaining width was close to
width_max (an aligned join inside another one then printed too many fill
characters), and the difference of limit and a negative width overflowed.
---
 include/strf/detail/printable_types/join.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/printable_types/join.hpp b/include/strf/detail/printable_types/join.hpp
index 005978f..eda8267 100644
--- a/include/strf/detail/printable_types/join.hpp
+++ b/include/strf/detail/printable_types/join.hpp
@@ -246,7 +246,7 @@ struct join_printing
         strf::width_t wdiff = 0;
         if (pre->remaining_width_greater_than(afmt.width)) {
             wmax = pre->remaining_width();
-            wdiff = wmax - afmt.width;
+            wdiff = strf::sat_sub(wmax, afmt.width);
         }
         sub_pre_t sub_pre{wmax};
         pf_type pf
@@ -257,8 +257,7 @@ struct join_printing
             ( sub_pre.remaining_width_greater_than(wdiff)
             ? (sub_pre.remaining_width() - wdiff).round()
             : 0 );
-        pre->add_width
-            ( strf::sat_sub(strf::sat_add(wmax, pf.fillcount_), sub_pre.remaining_width()) );
+        pre->add_width(strf::sat_add(sub_pre.accumulated_width(), pf.fillcount_));
         STRF_IF_CONSTEXPR (static_cast<bool>(SizePresence)) {
             pre->add_size(sub_pre.accumulated_ssize());
             if (pf.fillcount_ > 0) {
-- 
2.43.0


From 03afd1333ebd122d5a23b55faff1442b0b48b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:54 +0000
Subject: [PATCH 25/25] fix: fmt_separated_range(initializer_list, sep) did not
 compile with clang

The length of the separator was narrowed from size_t to ptrdiff_t in a
braced initializer.
---
 include/strf/detail/printable_types/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/range.hpp b/include/strf/detail/printable_types/range.hpp
index 5dc2ebd..a087c3c 100644
--- a/include/strf/detail/printable_types/range.hpp
+++ b/include/strf/detail/printable_types/range.hpp
@@ -818,7 +818,7 @@ template <typename T, typename CharT>
 inline STRF_HD auto fmt_separated_range(std::initializer_list<T> r, const CharT* sep) noexcept
     -> strf::sep_range_with_fmt<const T*, CharT>
 {
-    std::size_t sep_len = strf::detail::str_ssize<CharT>(sep);
+    const auto sep_len = strf::detail::str_ssize<CharT>(sep);
     strf::separated_range_p<const T*, CharT> rr
     { r.begin(), r.end(), sep, sep_len };
     return strf::sep_range_with_fmt<const T*, CharT>{rr};
-- 
2.43.0

