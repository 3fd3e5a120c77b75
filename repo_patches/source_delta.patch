From 47ecafb14ef37f83edd47ac198380c111f52ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 01/14] fix: classify the code points within UnicodeData.txt's
 First/Last ranges

The generator only knew the last code points of an older Unicode version,
so most CJK and Tangut ideographs were classified as unassigned.
---
 src/Ystring/CharClassTables.hpp                  | 16 ++++++++--------
 .../make_char_class_file.py                      |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Ystring/CharClassTables.hpp b/src/Ystring/CharClassTables.hpp
index 973d811..c7fe4ad 100644
--- a/src/Ystring/CharClassTables.hpp
+++ b/src/Ystring/CharClassTables.hpp
@@ -248,8 +248,8 @@ namespace ystring
         0x0188201E, 0x018980BE, 0x018C78BE, 0x018C8816, 0x018CA80B,
         0x018CF816, 0x018DF805, 0x018F2816, 0x018F7BD6, 0x018FF805,
         0x0190FADE, 0x0191480B, 0x01923816, 0x01928176, 0x0192F80B,
-        0x0193F816, 0x0194480B, 0x01958016, 0x0195F80B, 0x01A002C5,
-        0x026DFBC5, 0x027002C5, 0x04FFF01E, 0x0500A8A4, 0x05246005,
+        0x0193F816, 0x0194480B, 0x01958016, 0x0195F80B, 0x019FF816,
+        0x026DF805, 0x026FF816, 0x0500A8A4, 0x05246005,
         0x0524781E, 0x05263016, 0x0526781E, 0x0527B805, 0x0527E804,
         0x0527F812, 0x053060A4, 0x05307812, 0x0530F805, 0x05314809,
         0x05315805, 0x0531F81E, 0x05336C02, 0x053378A6, 0x05339912,
@@ -426,8 +426,8 @@ namespace ystring
         0x0B71F81E, 0x0B72F801, 0x0B73F802, 0x0B74B00B, 0x0B74D012,
         0x0B77F81E, 0x0B7A5005, 0x0B7A7BC6, 0x0B7A8005, 0x0B7C3807,
         0x0B7C701E, 0x0B7C9006, 0x0B7CF804, 0x0B7EF81E, 0x0B7F1092,
-        0x0B7F2086, 0x0B7F781E, 0x0B7F8807, 0x0B8003C5, 0x0C3FBBC5,
-        0x0C3FF81E, 0x0C66A805, 0x0C67F01E, 0x0C680005, 0x0C6843C5,
+        0x0B7F2086, 0x0B7F781E, 0x0B7F8807, 0x0B7FF81E, 0x0C3FB805,
+        0x0C3FF81E, 0x0C66A805, 0x0C67F01E, 0x0C684005,
         0x0D7F781E, 0x0D7FA09E, 0x0D7FE09E, 0x0D7FF89E, 0x0D891005,
         0x0D8993C5, 0x0D8A781E, 0x0D8A9005, 0x0D8AABC5, 0x0D8B181E,
         0x0D8B3805, 0x0D8B781E, 0x0D97D805, 0x0DDFF81E, 0x0DE35005,
@@ -491,10 +491,10 @@ namespace ystring
         0x0FD36816, 0x0FD3781E, 0x0FD3E016, 0x0FD3F81E, 0x0FD44816,
         0x0FD4701E, 0x0FD63016, 0x0FD6681E, 0x0FD6E016, 0x0FD6F01E,
         0x0FD74816, 0x0FD7781E, 0x0FD7C016, 0x0FD7F81E, 0x0FDC9ADE,
-        0x0FDF7816, 0x0FDFC809, 0x100003C5, 0x1536FBC5, 0x153803C5,
-        0x15B9CBC5, 0x15B9F81E, 0x15C0E805, 0x15C103C5, 0x16750BC5,
-        0x167583C5, 0x175F03C5, 0x175F83C5, 0x1772EBC5, 0x17BFF81E,
-        0x17D0E805, 0x180003C5, 0x189A53C5, 0x189A83C5, 0x191D7BC5,
+        0x0FDF7816, 0x0FDFC809, 0x0FFFF81E, 0x1536F805, 0x1537F81E,
+        0x15B9C805, 0x15B9F81E, 0x15C0E805, 0x15C0F81E, 0x16750805,
+        0x1675781E, 0x175F0005, 0x175F781E, 0x1772E805, 0x17BFF81E,
+        0x17D0E805, 0x17FFF81E, 0x189A5005, 0x189A781E, 0x191D7805,
         0x70000BDB, 0x7000F81E, 0x7003F81B, 0x7007F81E, 0x700F7806,
         0x77FFF81E, 0x7FFFE81D, 0x7FFFF81E, 0x87FFE81D
     };
diff --git a/tools/unicode_character_tables/make_char_class_file.py b/tools/unicode_character_tables/make_char_class_file.py
index adb8c1a..800ee24 100644
--- a/tools/unicode_character_tables/make_char_class_file.py
+++ b/tools/unicode_character_tables/make_char_class_file.py
@@ -127,9 +127,6 @@ ClassNames = {
     "XLu":  "Alternating upper and lower case, ends on upper"
 }
 
-KnownRanges = {0x4DB5, 0x9FCC, 0xD7A3, 0xDB7F, 0xDBFF, 0xDFFF, 0xF8FF,
-               0x2A6D6, 0x2B734, 0x2B81D, 0xFFFFD, 0x10FFFD}
-
 
 Template = """\
 //****************************************************************************
@@ -175,7 +172,10 @@ def get_class_ranges(file_name):
         parts = line.split(";")
         char_class = parts[2]
         char_id = int(parts[0], 16)
-        if (char_id == range_end + 1 or char_id in KnownRanges) and char_class == range_class:
+        # The last code point in a range that isn't listed in full, has the
+        # name "<..., Last>" (the preceding line is "<..., First>").
+        is_range_end = parts[1].endswith(", Last>")
+        if (char_id == range_end + 1 or is_range_end) and char_class == range_class:
             range_end = char_id
         else:
             if range_class:
-- 
2.43.0


From 5c8e64c2d281ad598b3845c2a8ae187a311df260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 02/14] fix: look up composed characters with the entire key in
 the right table

The lookup compared with the end of the wrong table, truncated the
key to 32 bits (base characters from U+1000 and up were never composed) and
let marks above 0xFFFFF spill into the bits of the base character.
---
 src/Ystring/Normalize.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 8affe78..f4b43ff 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -32,13 +32,14 @@ namespace ystring
 
         char32_t find_composed(char32_t ch, char32_t mark)
         {
-            if (mark < 0x300)
+            // Larger marks would overflow into the bits occupied by ch.
+            if (mark < 0x300 || 0xFFFFFu < mark)
                 return 0;
             auto key = (uint64_t(ch) << 20u) | uint64_t(mark);
             auto it = std::lower_bound(std::begin(TO_COMPOSED),
                                        std::end(TO_COMPOSED),
                                        key << 20u);
-            if (it == std::end(TO_DECOMPOSED) || char32_t(*it >> 20u) != key)
+            if (it == std::end(TO_COMPOSED) || (*it >> 20u) != key)
                 return 0;
             return char32_t(*it & 0xFFFFFu);
         }
-- 
2.43.0


From c8fb03d43fd6e5607055a3af88b02e99f6075f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 03/14] fix: follow the base character when computing the
 decomposed size

to_decomposed never returned if str contained a character that decomposes
into four code points, and decompose returned a truncated result.
---
 src/Ystring/Normalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index f4b43ff..49f1109 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -51,7 +51,7 @@ namespace ystring
             while (mark)
             {
                 ++n;
-                std::tie(norm, mark) = find_decomposed(mark);
+                std::tie(norm, mark) = find_decomposed(norm);
             }
             return n;
         }
-- 
2.43.0


From 96b50d772e794d5495e865cb810a25c584852c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 04/14] fix: don't drop the character following a composed
 character

to_composed lost the first character that could not be combined with the
composed character preceding it.
---
 src/Ystring/Normalize.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 49f1109..7d3f425 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -130,7 +130,10 @@ namespace ystring
                 {
                     denorm = find_composed(ch, mark);
                     if (denorm == 0)
+                    {
+                        prev = it;
                         break;
+                    }
 
                     ch = denorm;
                     from = prev = to = it;
-- 
2.43.0


From b212e17627328af526596373d25b384d36b61620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 05/14] fix: give the whitespace and newline views an explicit
 end

The arrays were implicitly converted to std::u32string_view through its
null-terminated string constructor, but have no terminating null.
---
 include/Ystring/Algorithms.hpp | 4 ++--
 src/Ystring/Algorithms.cpp     | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/Ystring/Algorithms.hpp b/include/Ystring/Algorithms.hpp
index 12eb689..f1b597c 100644
--- a/include/Ystring/Algorithms.hpp
+++ b/include/Ystring/Algorithms.hpp
@@ -26,8 +26,8 @@
 
 namespace ystring
 {
-    constexpr char32_t ASCII_WHITESPACE[] = {' ', '\t', '\n', '\r', '\f', '\v'};
-    constexpr char32_t COMMON_WHITESPACE[] = {' ', '\t', '\n', '\r'};
+    constexpr std::u32string_view ASCII_WHITESPACE = U" \t\n\r\f\v";
+    constexpr std::u32string_view COMMON_WHITESPACE = U" \t\n\r";
 
     inline std::string_view to_string_view(std::u8string_view str)
     {
diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 7e310e6..685f58e 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -17,7 +17,7 @@ namespace ystring
 {
     namespace
     {
-        constexpr char32_t NEWLINES[] = {
+        constexpr char32_t NEWLINE_CHARS[] = {
             '\n',
             '\v',
             '\f',
@@ -26,6 +26,9 @@ namespace ystring
             LINE_SEPARATOR,
             PARAGRAPH_SEPARATOR
         };
+
+        constexpr std::u32string_view NEWLINES = {NEWLINE_CHARS,
+                                                  std::size(NEWLINE_CHARS)};
     }
 
     std::string& append(std::string& str, char32_t chr)
-- 
2.43.0


From 9301fbd7654e7ccdfe8f1ae6b19fad3b80a37e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 06/14] fix: return the correct length of substring ranges with
 negative indices

An empty range given by two equal, negative indices selected everything up
to the index, and the lengths for indices with different signs were either
relative to the wrong position or an end position rather than a length.
---
 src/Ystring/AlgorithmUtilities.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index 56da7d8..4ae5902 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -58,14 +58,16 @@ namespace ystring
         else if (start_index < 0 && end_index < 0)
         {
             auto e = get_capped_char_pos(str, end_index);
-            auto s = get_capped_char_pos(str.substr(0, e), start_index - end_index);
+            auto s = start_index == end_index
+                     ? e
+                     : get_capped_char_pos(str.substr(0, e), start_index - end_index);
             return {s, e - s};
         }
         else if (start_index >= 0 && end_index < 0)
         {
             auto s = get_capped_char_pos(str, start_index);
             auto e = get_capped_char_pos(str.substr(s), end_index);
-            return {s, e - s};
+            return {s, e};
         }
         else
         {
@@ -90,7 +92,9 @@ namespace ystring
         else if (start_index < 0 && end_index < 0)
         {
             auto e = get_capped_codepoint_pos(str, end_index);
-            auto s = get_capped_codepoint_pos(str.substr(0, e), start_index - end_index);
+            auto s = start_index == end_index
+                     ? e
+                     : get_capped_codepoint_pos(str.substr(0, e), start_index - end_index);
             return {s, e - s};
         }
         else if (start_index >= 0 && end_index < 0)
@@ -103,7 +107,7 @@ namespace ystring
         {
             auto s = get_capped_codepoint_pos(str, start_index);
             auto e = get_capped_codepoint_pos(str, end_index);
-            return {s, std::max(s, e)};
+            return {s, e > s ? e - s : 0};
         }
     }
 
-- 
2.43.0


From 1ee847d3d202ca93a852980461512c641e18dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 07/14] fix: avoid overflow when negating PTRDIFF_MIN

---
 src/Ystring/Algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 685f58e..acc2fee 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -258,7 +258,7 @@ namespace ystring
 
     size_t get_codepoint_pos(std::string_view str, ptrdiff_t pos)
     {
-        if (std::abs(pos) > ptrdiff_t(str.size()))
+        if (pos > ptrdiff_t(str.size()) || pos < -ptrdiff_t(str.size()))
             return std::string_view::npos;
         if (pos >= 0)
         {
@@ -377,7 +377,7 @@ namespace ystring
         else
         {
             size_t prev = 0;
-            auto matches = find_last_n(str, from, -max_replacements);
+            auto matches = find_last_n(str, from, -size_t(max_replacements));
             for (auto it = matches.rbegin(); it != matches.rend(); ++it)
             {
                 if (it->offset != prev)
-- 
2.43.0


From b2a67d041188f2f95f0160bcb1bc91674af99c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 08/14] fix: don't insert endlessly in replace when the search
 string is empty

Nothing is replaced when from is empty, just like when max_replacements is
negative and in case_insensitive::replace.
---
 src/Ystring/Algorithms.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index acc2fee..a9f37b3 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -358,6 +358,8 @@ namespace ystring
                         std::string_view to,
                         ptrdiff_t max_replacements)
     {
+        if (from.empty())
+            return std::string(str);
         std::string result;
         if (max_replacements >= 0)
         {
-- 
2.43.0


From 2e408ecb813d211510e36f4b6cb490ea8ca838da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 09/14] fix: don't read past the end of truncated escape
 sequences

The end of numeric escape sequences at the end of the string was reported as
being beyond the end of the string. The six characters following an escaped
high surrogate are only parsed if they are another \\u sequence, as they
otherwise can contain just the first half of another sequence.
---
 src/Ystring/Unescape.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 0a2ebdf..d184b70 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -33,7 +33,7 @@ namespace ystring
                 if (pred(str[i]))
                     return i;
             }
-            return end;
+            return std::min(str.size(), end);
         }
 
         size_t
@@ -96,11 +96,11 @@ namespace ystring
 
             // Look for the second part of a surrogate pair.
             auto str2 = str.substr(sub.end(), 6);
-            auto sub2 = find_first_escaped_char(str2);
-            if (!sub2 || sub2.offset != 0 || sub2.length != 6)
+            if (str2.size() != 6 || str2[0] != '\\' || str2[1] != 'u')
                 return {ch, sub};
 
-            if (str[sub.end() + 1] != 'u')
+            auto sub2 = find_first_escaped_char(str2);
+            if (!sub2 || sub2.offset != 0 || sub2.length != 6)
                 return {ch, sub};
 
             auto ch2 = parse_escaped_hex_char(str2);
-- 
2.43.0


From 96044cf855164a3b6c1772cf8070b349289b5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 10/14] fix: reject escaped hexadecimal values that don't fit
 in 32 bits

The value was uninitialized when std::from_chars reported overflow.
---
 src/Ystring/Unescape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index d184b70..ce75283 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -60,7 +60,7 @@ namespace ystring
             auto res = std::from_chars(str.data() + 2,
                                        str.data() + str.size(),
                                        value, 16);
-            if (res.ptr == str.data() + 2)
+            if (res.ec != std::errc())
             {
                 YSTRING_THROW("Cannot parse escaped char: "
                               + std::string(str));
-- 
2.43.0


From d07cf281e6a552797497fb82104f14608a4dabc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 11/14] fix: classify values that don't fit in 21 bits as
 unassigned

The most significant bits were shifted out of the lookup key.
---
 src/Ystring/CharClass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/CharClass.cpp b/src/Ystring/CharClass.cpp
index f656947..2e2d7b2 100644
--- a/src/Ystring/CharClass.cpp
+++ b/src/Ystring/CharClass.cpp
@@ -67,7 +67,8 @@ namespace ystring
             std::begin(COMPLETE_CHAR_CLASSES),
             std::end(COMPLETE_CHAR_CLASSES),
             key);
-        if (it == std::end(COMPLETE_CHAR_CLASSES))
+        if (it == std::end(COMPLETE_CHAR_CLASSES)
+            || code_point > (*it >> CODE_POINT_SHIFT))
             return CharClass::UNASSIGNED;
         return CharClass_t(1u << decode_char_class(code_point, *it));
     }
-- 
2.43.0


From b90dfa3f7ed7b1d29b10a99b22e82c524f0532ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 12/14] fix: don't include text following the token in
 TokenIterator::token

---
 include/Ystring/TokenIterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/TokenIterator.hpp b/include/Ystring/TokenIterator.hpp
index 0d211df..b1ea289 100644
--- a/include/Ystring/TokenIterator.hpp
+++ b/include/Ystring/TokenIterator.hpp
@@ -52,7 +52,7 @@ namespace ystring
         {
             if (!m_token)
                 return {};
-            return m_str.substr(m_token.start(), m_token.end());
+            return m_str.substr(m_token.start(), m_token.length);
         }
 
         [[nodiscard]] std::string_view remainder() const
-- 
2.43.0


From bdc90f349c47b1ecb1ee65f21aaa0931d60c967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 13/14] fix: keep the string when splitting with max_splits set
 to 0

---
 include/Ystring/Algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/Algorithms.hpp b/include/Ystring/Algorithms.hpp
index f1b597c..ab89701 100644
--- a/include/Ystring/Algorithms.hpp
+++ b/include/Ystring/Algorithms.hpp
@@ -520,7 +520,7 @@ namespace ystring
             if (!params.ignore_empty || !part.empty())
                 result.push_back(part);
         }
-        if (it)
+        if (it || params.max_splits == 0)
         {
             auto remainder = it.remainder();
             if (!params.ignore_empty || !remainder.empty())
-- 
2.43.0


From d2f4ae4c893cd91b9778084a88748d94d2caa8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 14/14] fix: avoid too large shifts in decode_prev on long runs
 of continuation bytes

---
 include/Ystring/DecodeUtf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/DecodeUtf8.hpp b/include/Ystring/DecodeUtf8.hpp
index 412db80..d4697ac 100644
--- a/include/Ystring/DecodeUtf8.hpp
+++ b/include/Ystring/DecodeUtf8.hpp
@@ -92,7 +92,7 @@ namespace ystring
 
         char32_t result = 0;
         unsigned n = 0;
-        while ((uint8_t(*it) & 0xC0u) == 0x80)
+        while (n < 4 && (uint8_t(*it) & 0xC0u) == 0x80)
         {
             if (it == begin)
             {
-- 
2.43.0

