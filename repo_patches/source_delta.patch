From 61a0a8c3fdcea93531859be6a9933cfb2dbe87b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:15 +0000
Subject: [PATCH 01/37] fix: do not truncate code points to 16 bits when
 looking for surrogates

is_code_point_valid passed a char32_t to is_surrogate(char16_t), so every
supplementary code point whose low 16 bits fall in D800..DFFF (for example
U+1D800) was reported as invalid and could not be encoded in UTF-8.
---
 api/src/cmp/unicode/examiners.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/examiners.ipp b/api/src/cmp/unicode/examiners.ipp
index c42d066..4727e77 100644
--- a/api/src/cmp/unicode/examiners.ipp
+++ b/api/src/cmp/unicode/examiners.ipp
@@ -90,7 +90,10 @@ is_code_point_valid (
 noexcept
 {
     return code_point <= maximum_code_point
-        && !is_surrogate(code_point);
+        && (
+            code_point < leading_surrogate_minimum_value
+                || code_point > trailing_surrogate_maximum_value
+        );
 } // function -----------------------------------------------------------------
 
 constexpr
-- 
2.43.0


From bc355964bbd48957ea126f5fc36ad3df8b40e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:15 +0000
Subject: [PATCH 02/37] fix: reject invalid code points when inserting into
 UTF-16 strings

insert_code_point wrote a garbage surrogate pair for surrogates and for
values above U+10FFFF; it now throws invalid_code_point as it does for UTF-8.
---
 api/src/cmp/unicode/algorithms.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index bffc917..1b31a5a 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -150,10 +150,10 @@ insert_code_point (
                        && sizeof (wchar_t) == 2
                )
     ) {
-        if (
-            !is_surrogate(code_point)
-                && code_point <= maximum_bmp_code_point
-        ) {
+        if (!is_code_point_valid(code_point)) {
+            throw invalid_code_point{};
+        }
+        if (code_point <= maximum_bmp_code_point) {
             s.insert(index, 1, static_cast<char16_t>(code_point));
         } else {
             code_point -= 0x10000;
-- 
2.43.0


From 3902dcc7f7469be66b158906f5fdff7dfb1b91b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:34 +0000
Subject: [PATCH 03/37] fix: do not read past the end of truncated text when
 advancing by code point

const_iterator::finish_sequence compared the current unit with the end
although it reads the next one, and advance dereferenced the end iterator.
Advancing over a truncated sequence, or at the end, now throws
iterated_past_end without touching memory outside the text.
---
 api/src/cmp/unicode/by_code_point.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index c5c11d9..86dd4dc 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -466,7 +466,7 @@ const
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -493,7 +493,7 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -511,6 +511,9 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
 void
 by_code_point<char8_t>::const_iterator::advance ()
 {
+    if (m_current_iterator == m_end_iterator) {
+        throw iterated_past_end{};
+    }
     char8_t code_unit{*m_current_iterator};
     char32_t code_point;
     auto sequence_length{
@@ -841,7 +844,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -862,7 +865,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
     std::u16string_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -880,6 +883,9 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
 void
 by_code_point<char16_t>::const_iterator::advance ()
 {
+    if (m_current_iterator == m_end_iterator) {
+        throw iterated_past_end{};
+    }
     char16_t code_unit{*m_current_iterator};
     char32_t code_point;
     auto sequence_length{
@@ -1431,7 +1437,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
@@ -1452,7 +1458,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
     std::wstring_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
@@ -1471,6 +1477,9 @@ void
 by_code_point<wchar_t>::const_iterator::advance ()
 {
     if constexpr (sizeof (wchar_t) == 2) {
+        if (m_current_iterator == m_end_iterator) {
+            throw iterated_past_end{};
+        }
         char16_t code_unit{static_cast<char16_t>(*m_current_iterator)};
         char32_t code_point;
         auto sequence_length{
-- 
2.43.0


From 9eeccddbc38678346664c395ad33a671dd8902d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:34 +0000
Subject: [PATCH 04/37] fix: advance over both units of a surrogate pair

by_code_point<char16_t> moved by a single unit when advancing over a
supplementary code point and then threw on the trailing surrogate.
---
 api/src/cmp/unicode/by_code_point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 86dd4dc..930bc4b 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -872,7 +872,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
@@ -1465,7 +1465,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
-- 
2.43.0


From 6b21b4ef5ddbc55539a7519fb9cd30c1c2a0fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:34 +0000
Subject: [PATCH 05/37] fix: make operator -= and operator - go backwards in
 UTF-16 text

retreat(offset) called advance().
---
 api/src/cmp/unicode/by_code_point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 930bc4b..f33274c 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -921,7 +921,7 @@ by_code_point<char16_t>::const_iterator::retreat (
     difference_type offset
 ) {
     while (offset-- > 0) {
-        advance();
+        retreat();
     }
 } // function -----------------------------------------------------------------
 
@@ -1527,7 +1527,7 @@ by_code_point<wchar_t>::const_iterator::retreat (
 ) {
     if constexpr (sizeof (wchar_t) == 2) {
         while (offset-- > 0) {
-            advance();
+            retreat();
         }
     } else {
         m_current_iterator -= offset;
-- 
2.43.0


From 264b10b332f41f794f33e44d0e27c5a665cd9f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:07 +0000
Subject: [PATCH 06/37] fix: treat overlong, surrogate and out-of-range UTF-8
 sequences as invalid

by_code_point and text_input_stream decoded ill-formed UTF-8 (C0 80, ED A0 80,
F4 90 80 80, ...) to code points instead of throwing
invalid_unicode_encoding, and validate_string accepted such text as well as
surrogates in UTF-32.
---
 api/include/cmp/unicode/impl/impl.hpp |  8 ++++++++
 api/src/cmp/io/text_input_stream.ipp  |  7 ++++++-
 api/src/cmp/unicode/algorithms.ipp    |  2 +-
 api/src/cmp/unicode/by_code_point.cpp | 21 ++++++++++++++++++---
 api/src/cmp/unicode/impl/impl.cpp     | 15 +++++++++++++++
 5 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/unicode/impl/impl.hpp b/api/include/cmp/unicode/impl/impl.hpp
index e044dd2..42ca68d 100644
--- a/api/include/cmp/unicode/impl/impl.hpp
+++ b/api/include/cmp/unicode/impl/impl.hpp
@@ -22,6 +22,14 @@ initialize_utf8_sequence (
     char32_t& initial_code_point_value
 );
 
+CMP_CONDITIONAL_INLINE
+CMP_LIBRARY_NAME
+void
+check_utf8_sequence (
+    int sequence_length,
+    char32_t code_point
+);
+
 CMP_CONDITIONAL_INLINE
 CMP_LIBRARY_NAME
 int
diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 59a74da..ac431a1 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -183,7 +183,11 @@ text_input_stream<InputResource>::finish_utf8_sequence (
 ) {
     char8_t code_unit;
     char32_t result{initial_code_point_value};
-    while (--sequence_length > 0) {
+    for (
+        int units_left{sequence_length - 1};
+        units_left > 0;
+        --units_left
+    ) {
         if (!read_utf8_code_unit(code_unit)) {
             throw read_past_end{};
         }
@@ -193,6 +197,7 @@ text_input_stream<InputResource>::finish_utf8_sequence (
         result <<= 6;
         result |= code_unit & 0b0011'1111;
     }
+    impl::check_utf8_sequence(sequence_length, result);
     return result;
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index 1b31a5a..2035054 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -287,7 +287,7 @@ noexcept
     auto bcp_iterator{std::cbegin(bcp_range)};
     try {
         while (bcp_iterator != bcp_range_end) {
-            if (*bcp_iterator > maximum_code_point) {
+            if (!is_code_point_valid(*bcp_iterator)) {
                 return bcp_iterator;
             }
             ++bcp_iterator;
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index f33274c..fc3f941 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -272,7 +272,11 @@ const
     if (sequence_length == 1) {
         return result;
     }
-    while (--sequence_length > 0) {
+    for (
+        int units_left{sequence_length - 1};
+        units_left > 0;
+        --units_left
+    ) {
         if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
@@ -284,6 +288,7 @@ const
         result <<= 6;
         result |= code_unit & 0b0011'1111;
     }
+    impl::check_utf8_sequence(sequence_length, result);
     return result;
 } // function -----------------------------------------------------------------
 
@@ -465,7 +470,11 @@ const
     if (sequence_length == 1) {
         return result;
     }
-    while (--sequence_length > 0) {
+    for (
+        int units_left{sequence_length - 1};
+        units_left > 0;
+        --units_left
+    ) {
         if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
@@ -477,6 +486,7 @@ const
         result <<= 6;
         result |= code_unit & 0b0011'1111;
     }
+    impl::check_utf8_sequence(sequence_length, result);
     return result;
 } // function -----------------------------------------------------------------
 
@@ -492,7 +502,11 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
         ++i;
         return result;
     }
-    while (--sequence_length > 0) {
+    for (
+        int units_left{sequence_length - 1};
+        units_left > 0;
+        --units_left
+    ) {
         if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
@@ -504,6 +518,7 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
         result <<= 6;
         result |= code_unit & 0b0011'1111;
     }
+    impl::check_utf8_sequence(sequence_length, result);
     ++i;
     return result;
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/unicode/impl/impl.cpp b/api/src/cmp/unicode/impl/impl.cpp
index 91483c0..7a62f85 100644
--- a/api/src/cmp/unicode/impl/impl.cpp
+++ b/api/src/cmp/unicode/impl/impl.cpp
@@ -31,6 +31,21 @@ initialize_utf8_sequence (
     }
 } // function -----------------------------------------------------------------
 
+void
+check_utf8_sequence (
+    int sequence_length,
+    char32_t code_point
+) {
+    constexpr char32_t minimum_code_points[]{0, 0x80, 0x800, 0x10000};
+
+    if (
+        code_point < minimum_code_points[sequence_length - 1]
+            || !is_code_point_valid(code_point)
+    ) {
+        throw invalid_unicode_encoding{};
+    }
+} // function -----------------------------------------------------------------
+
 int
 initialize_utf16_sequence (
     char16_t leading_code_unit,
-- 
2.43.0


From 4f6ce009e2fc922913113615da2f03dfd2aba980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:23 +0000
Subject: [PATCH 07/37] fix: do not read before the beginning of malformed text
 when going backwards

Going back over a stray trailing unit at the beginning of UTF-8 or UTF-16
text ran past the beginning of the string. The iterators now remember where
the text begins and stop there.
---
 api/include/cmp/unicode/by_code_point.hpp |  4 ++
 api/src/cmp/unicode/by_code_point.cpp     | 50 +++++++++++++++++++----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/api/include/cmp/unicode/by_code_point.hpp b/api/include/cmp/unicode/by_code_point.hpp
index e7ba723..fa65165 100644
--- a/api/include/cmp/unicode/by_code_point.hpp
+++ b/api/include/cmp/unicode/by_code_point.hpp
@@ -426,6 +426,7 @@ public:
 
         CMP_CONDITIONAL_INLINE
         const_iterator (
+            std::u8string_view::const_iterator initial_begin_iterator,
             std::u8string_view::const_iterator initial_current_iterator,
             std::u8string_view::const_iterator initial_end_iterator
         )
@@ -572,6 +573,7 @@ public:
     private:
         // Private Data -------------------------------------------------------
 
+        std::u8string_view::const_iterator m_begin_iterator;
         std::u8string_view::const_iterator m_current_iterator;
         std::u8string_view::const_iterator m_end_iterator;
 
@@ -844,6 +846,7 @@ public:
 
         CMP_CONDITIONAL_INLINE
         const_iterator (
+            std::u16string_view::const_iterator initial_begin_iterator,
             std::u16string_view::const_iterator initial_current_iterator,
             std::u16string_view::const_iterator initial_end_iterator
         )
@@ -990,6 +993,7 @@ public:
     private:
         // Private Data -------------------------------------------------------
 
+        std::u16string_view::const_iterator m_begin_iterator;
         std::u16string_view::const_iterator m_current_iterator;
         std::u16string_view::const_iterator m_end_iterator;
 
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index fc3f941..9180a09 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -297,11 +297,13 @@ const
 // Constructors and Destructor ------------------------------------------------
 
 by_code_point<char8_t>::const_iterator::const_iterator (
+    std::u8string_view::const_iterator initial_begin_iterator,
     std::u8string_view::const_iterator initial_current_iterator,
     std::u8string_view::const_iterator initial_end_iterator
 )
 noexcept
-    : m_current_iterator{initial_current_iterator}
+    : m_begin_iterator{initial_begin_iterator}
+    , m_current_iterator{initial_current_iterator}
     , m_end_iterator{initial_end_iterator}
 {
 } // function -----------------------------------------------------------------
@@ -379,6 +381,7 @@ operator + (
 noexcept
 {
     by_code_point<char8_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -394,6 +397,7 @@ operator + (
 noexcept
 {
     by_code_point<char8_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -409,6 +413,7 @@ operator - (
 noexcept
 {
     by_code_point<char8_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -424,6 +429,7 @@ operator - (
 noexcept
 {
     by_code_point<char8_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -557,7 +563,10 @@ by_code_point<char8_t>::const_iterator::retreat ()
     if (is_standalone_byte(code_unit)) {
         return;
     }
-    while (is_trailing_byte(code_unit)) {
+    while (
+        is_trailing_byte(code_unit)
+            && m_current_iterator != m_begin_iterator
+    ) {
         code_unit = *(--m_current_iterator);
     }
 } // function -----------------------------------------------------------------
@@ -604,14 +613,22 @@ by_code_point<char8_t>::const_iterator
 by_code_point<char8_t>::cbegin ()
 const noexcept
 {
-    return const_iterator{m_begin_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_begin_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<char8_t>::const_iterator
 by_code_point<char8_t>::cend ()
 const noexcept
 {
-    return const_iterator{m_end_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_end_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<char8_t>::const_reverse_iterator
@@ -690,11 +707,13 @@ const
 // Constructors and Destructor ------------------------------------------------
 
 by_code_point<char16_t>::const_iterator::const_iterator (
+    std::u16string_view::const_iterator initial_begin_iterator,
     std::u16string_view::const_iterator initial_current_iterator,
     std::u16string_view::const_iterator initial_end_iterator
 )
 noexcept
-    : m_current_iterator{initial_current_iterator}
+    : m_begin_iterator{initial_begin_iterator}
+    , m_current_iterator{initial_current_iterator}
     , m_end_iterator{initial_end_iterator}
 {
 } // function -----------------------------------------------------------------
@@ -772,6 +791,7 @@ operator + (
 noexcept
 {
     by_code_point<char16_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -787,6 +807,7 @@ operator + (
 noexcept
 {
     by_code_point<char16_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -802,6 +823,7 @@ operator - (
 noexcept
 {
     by_code_point<char16_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -817,6 +839,7 @@ operator - (
 noexcept
 {
     by_code_point<char16_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -926,7 +949,10 @@ void
 by_code_point<char16_t>::const_iterator::retreat ()
 {
     char16_t code_unit{*(--m_current_iterator)};
-    if (is_trailing_surrogate(code_unit)) {
+    if (
+        is_trailing_surrogate(code_unit)
+            && m_current_iterator != m_begin_iterator
+    ) {
         --m_current_iterator;
     }
 } // function -----------------------------------------------------------------
@@ -973,14 +999,22 @@ by_code_point<char16_t>::const_iterator
 by_code_point<char16_t>::cbegin ()
 const noexcept
 {
-    return const_iterator{m_begin_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_begin_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<char16_t>::const_iterator
 by_code_point<char16_t>::cend ()
 const noexcept
 {
-    return const_iterator{m_end_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_end_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<char16_t>::const_reverse_iterator
-- 
2.43.0


From fb36f79fcdb2ccaa83ff6299dd6bd7521539e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:32 +0000
Subject: [PATCH 08/37] fix: let functions that decode text throw on malformed
 text

starts_with, ends_with and iterator + offset decode text and may throw
invalid_unicode_encoding or iterated_past_end, but were declared noexcept, so
malformed text terminated the program.
---
 api/include/cmp/unicode/algorithms.hpp    |  6 ++----
 api/include/cmp/unicode/by_code_point.hpp | 18 ++++++-----------
 api/src/cmp/unicode/algorithms.ipp        |  8 ++------
 api/src/cmp/unicode/by_code_point.cpp     | 24 ++++++-----------------
 4 files changed, 16 insertions(+), 40 deletions(-)

diff --git a/api/include/cmp/unicode/algorithms.hpp b/api/include/cmp/unicode/algorithms.hpp
index 5297c98..4b8be32 100644
--- a/api/include/cmp/unicode/algorithms.hpp
+++ b/api/include/cmp/unicode/algorithms.hpp
@@ -35,8 +35,7 @@ bool
 starts_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept;
+);
 
 /**
     Description:
@@ -57,8 +56,7 @@ bool
 ends_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept;
+);
 
 /**
     Description:
diff --git a/api/include/cmp/unicode/by_code_point.hpp b/api/include/cmp/unicode/by_code_point.hpp
index fa65165..56b1fd9 100644
--- a/api/include/cmp/unicode/by_code_point.hpp
+++ b/api/include/cmp/unicode/by_code_point.hpp
@@ -517,8 +517,7 @@ public:
         operator + (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -527,8 +526,7 @@ public:
         operator + (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -937,8 +935,7 @@ public:
         operator + (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -947,8 +944,7 @@ public:
         operator + (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -1699,8 +1695,7 @@ public:
         operator + (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -1709,8 +1704,7 @@ public:
         operator + (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index 2035054..64096bc 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -15,9 +15,7 @@ bool
 starts_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept
-{
+) {
     cmp::by_code_point content_range{content};
     cmp::by_code_point substring_range{substring};
     auto content_iterator{content_range.cbegin()};
@@ -41,9 +39,7 @@ bool
 ends_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept
-{
+) {
     cmp::by_code_point content_range{content};
     cmp::by_code_point substring_range{substring};
     auto content_iterator{content_range.crbegin()};
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 9180a09..bca53da 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -377,9 +377,7 @@ by_code_point<char8_t>::const_iterator
 operator + (
     const by_code_point<char8_t>::const_iterator& iterator,
     by_code_point<char8_t>::const_iterator::difference_type offset
-)
-noexcept
-{
+) {
     by_code_point<char8_t>::const_iterator result_iterator{
         iterator.m_begin_iterator,
         iterator.m_current_iterator,
@@ -393,9 +391,7 @@ by_code_point<char8_t>::const_iterator
 operator + (
     by_code_point<char8_t>::const_iterator::difference_type offset,
     const by_code_point<char8_t>::const_iterator& iterator
-)
-noexcept
-{
+) {
     by_code_point<char8_t>::const_iterator result_iterator{
         iterator.m_begin_iterator,
         iterator.m_current_iterator,
@@ -787,9 +783,7 @@ by_code_point<char16_t>::const_iterator
 operator + (
     const by_code_point<char16_t>::const_iterator& iterator,
     by_code_point<char16_t>::const_iterator::difference_type offset
-)
-noexcept
-{
+) {
     by_code_point<char16_t>::const_iterator result_iterator{
         iterator.m_begin_iterator,
         iterator.m_current_iterator,
@@ -803,9 +797,7 @@ by_code_point<char16_t>::const_iterator
 operator + (
     by_code_point<char16_t>::const_iterator::difference_type offset,
     const by_code_point<char16_t>::const_iterator& iterator
-)
-noexcept
-{
+) {
     by_code_point<char16_t>::const_iterator result_iterator{
         iterator.m_begin_iterator,
         iterator.m_current_iterator,
@@ -1395,9 +1387,7 @@ by_code_point<wchar_t>::const_iterator
 operator + (
     const by_code_point<wchar_t>::const_iterator& iterator,
     by_code_point<wchar_t>::const_iterator::difference_type offset
-)
-noexcept
-{
+) {
     by_code_point<wchar_t>::const_iterator result_iterator{
         iterator.m_current_iterator,
         iterator.m_end_iterator
@@ -1410,9 +1400,7 @@ by_code_point<wchar_t>::const_iterator
 operator + (
     by_code_point<wchar_t>::const_iterator::difference_type offset,
     const by_code_point<wchar_t>::const_iterator& iterator
-)
-noexcept
-{
+) {
     by_code_point<wchar_t>::const_iterator result_iterator{
         iterator.m_current_iterator,
         iterator.m_end_iterator
-- 
2.43.0


From 106b7b88cb5818e6aecdd2c4e8f0ce76640843a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:57 +0000
Subject: [PATCH 09/37] fix: format the smallest value of every signed integer
 type correctly

std::abs of the smallest value overflows (undefined behaviour), and for
narrow types the result wrapped back to a negative number, which produced
garbage characters.
---
 api/include/cmp/unicode/formatters.hpp |  1 +
 api/src/cmp/unicode/formatters.ipp     | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/api/include/cmp/unicode/formatters.hpp b/api/include/cmp/unicode/formatters.hpp
index d1e18c0..d593be7 100644
--- a/api/include/cmp/unicode/formatters.hpp
+++ b/api/include/cmp/unicode/formatters.hpp
@@ -5,6 +5,7 @@
 #define CMP_UNICODE_FORMATTERS_HPP_INCLUDED
 
 #include <cmath>
+#include <cstdint>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/unicode/algorithms.hpp>
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index a862e72..e094371 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -33,22 +33,28 @@ number_formatter::format_integer (
     } else if (format.get_sign_status() == sign_status::always_show) {
         sign_character = '+';
     }
-    if constexpr (std::is_signed_v<Input>) {
-        input = std::abs(input);
+
+    /*
+        We convert the input to its magnitude in an unsigned type because
+        the smallest value of a signed type has no positive counterpart.
+    */
+    std::uintmax_t magnitude{static_cast<std::uintmax_t>(input)};
+    if (input < 0) {
+        magnitude = 0 - magnitude;
     }
-    while (input != 0) {
-        char character{static_cast<char>(input % format_radix)};
+    while (magnitude != 0) {
+        char character{static_cast<char>(magnitude % format_radix)};
         if (character <= 9) {
             character += '0';
         } else {
             character += 'A' - 10;
         }
         prepend_code_point(output, character);
-        input /= format_radix;
+        magnitude /= format_radix;
         ++digits_counted;
         if (digits_counted == 3) {
             digits_counted = 0;
-            if (input != 0) {
+            if (magnitude != 0) {
                 switch (format.get_thousands_separator()) {
                     case thousands_separator::comma:
                         prepend_code_point(output, ',');
-- 
2.43.0


From 6b139775d9ef98d2f1540c387421532cf9d8e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:57 +0000
Subject: [PATCH 10/37] fix: format and parse negative fractions with their own
 integral part

Formatting rounded negative values down (-1.5 became "-2.5") and parsing added
the fraction to the negative integral part ("-1.5" became -0.5, "-0.5" lost
its sign). Sign and magnitude are now handled separately; a positive value
below one also gets its sign with sign_status::always_show.
---
 api/src/cmp/unicode/formatters.ipp | 15 ++++++++++++---
 api/src/cmp/unicode/parsers.ipp    | 13 +++++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index e094371..2374c0b 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -86,17 +86,26 @@ number_formatter::format_floating_point (
 ) {
     integer_format equivalent_format{
         format.get_radix(),
-        format.get_sign_status(),
+        sign_status::only_when_negative,
         format.get_thousands_separator()
     };
+    const bool is_negative{input < 0};
+    if (is_negative) {
+        input = -input;
+    }
     Output output{
         number_formatter::format_integer<Output>(
             static_cast<long long>(std::floor(input)),
             equivalent_format
         )
     };
-    if (input < 0) {
-        input = -input;
+    if (is_negative) {
+        prepend_code_point(output, '-');
+    } else if (
+        input > 0
+            && format.get_sign_status() == sign_status::always_show
+    ) {
+        prepend_code_point(output, '+');
     }
     Input fractional_part{input - std::floor(input)};
     if (fractional_part == 0) {
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 7c04653..fe0fcb8 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -152,10 +152,19 @@ number_parser::parse_floating_point (
                 parse_integer<long long>(integral_part, equivalent_format)
             )
         };
+
+        /*
+            The digits after the radix point are added to the magnitude
+            of the integral part, the sign is applied at the very end.
+        */
+        const bool negate{integral_part.front() == '-'};
+        if (negate) {
+            output = -output;
+        }
         ++radix_character_iterator;
         if (radix_character_iterator == u32_input.cend()) {
             if (format.get_radix_place_limit() == radix_place_limit::none) {
-                return output;
+                return negate ? -output : output;
             } else if (format.get_radix_place_count() > 0) {
                 throw parse_failed{
                     "The input string had insufficient "
@@ -189,7 +198,7 @@ number_parser::parse_floating_point (
             }
             ++radix_character_iterator;
         }
-        return output;
+        return negate ? -output : output;
     }
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 2d7a91fc17ba6feca07403d695796d8c2f98df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:45 +0000
Subject: [PATCH 11/37] fix: make floating-point places and fraction separators
 round-trip

The formatter put a thousands separator after every third fractional digit,
even behind the last one, and the parser rejected separators there; padding
was skipped when the fraction was zero; the parser never compared the number
of places with the format's radix place limit. Separators now stand only
between groups of three fractional digits (also in padding), are parsed back,
and a wrong number of places is reported as wrong_place_limit.
---
 api/include/cmp/unicode/parsers.hpp |  8 +++++
 api/src/cmp/unicode/formatters.ipp  | 48 +++++++++++++++++------------
 api/src/cmp/unicode/parsers.cpp     | 21 +++++++++++++
 api/src/cmp/unicode/parsers.ipp     | 29 ++++++++++++++---
 4 files changed, 82 insertions(+), 24 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index 1d90092..c6aa1e9 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -93,6 +93,14 @@ private:
         thousands_separator format_thousands_separator
     );
 
+    CMP_CONDITIONAL_INLINE
+    static
+    void
+    check_radix_place_count (
+        unsigned int radix_place_count,
+        const floating_point_format& format
+    );
+
     template <
         std::integral Output
     >
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index 2374c0b..99ca23c 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -108,12 +108,34 @@ number_formatter::format_floating_point (
         prepend_code_point(output, '+');
     }
     Input fractional_part{input - std::floor(input)};
-    if (fractional_part == 0) {
+    if (
+        fractional_part == 0
+            && (
+                format.get_radix_place_limit()
+                        != radix_place_limit::exactly_equal
+                    || format.get_radix_place_count() == 0
+            )
+    ) {
         return output;
     }
     Output fractional_part_string;
-    unsigned int digits_counted{0};
     unsigned int radix_places_counted{0};
+    const auto append_fractional_digit = [&] (char character) {
+        if (radix_places_counted > 0 && radix_places_counted % 3 == 0) {
+            switch (format.get_thousands_separator()) {
+                case thousands_separator::comma:
+                    append_code_point(fractional_part_string, ',');
+                    break;
+                case thousands_separator::period:
+                    append_code_point(fractional_part_string, '.');
+                    break;
+                case thousands_separator::none:
+                    break;
+            }
+        }
+        append_code_point(fractional_part_string, character);
+        ++radix_places_counted;
+    };
     while (fractional_part != 0) {
         fractional_part *= format.get_radix();
         char character{static_cast<char>(std::floor(fractional_part))};
@@ -125,29 +147,15 @@ number_formatter::format_floating_point (
         }
         if (
             format.get_radix_place_limit() != radix_place_limit::none
-                && (radix_places_counted++) == format.get_radix_place_count()
+                && radix_places_counted == format.get_radix_place_count()
         ) {
             break;
         }
-        append_code_point(fractional_part_string, character);
-        ++digits_counted;
-        if (digits_counted == 3) {
-            digits_counted = 0;
-            switch (format.get_thousands_separator()) {
-                case thousands_separator::comma:
-                    append_code_point(fractional_part_string, ',');
-                    break;
-                case thousands_separator::period:
-                    append_code_point(fractional_part_string, '.');
-                    break;
-                case thousands_separator::none:
-                    continue;
-            }
-        }
+        append_fractional_digit(character);
     }
     if (format.get_radix_place_limit() == radix_place_limit::exactly_equal) {
-        while ((radix_places_counted++) < format.get_radix_place_count()) {
-            append_code_point(fractional_part_string, '0');
+        while (radix_places_counted < format.get_radix_place_count()) {
+            append_fractional_digit('0');
         }
     }
     append_code_point(
diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index 75de8a3..3bb0ab4 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -112,6 +112,27 @@ number_parser::check_for_thousands_separator (
     }
 } // function -----------------------------------------------------------------
 
+void
+number_parser::check_radix_place_count (
+    unsigned int radix_place_count,
+    const floating_point_format& format
+) {
+    const auto format_radix_place_limit{format.get_radix_place_limit()};
+    const auto format_radix_place_count{format.get_radix_place_count()};
+    if (
+        (format_radix_place_limit == radix_place_limit::exactly_equal
+            && radix_place_count != format_radix_place_count)
+        || (format_radix_place_limit == radix_place_limit::up_to
+            && radix_place_count > format_radix_place_count)
+    ) {
+        throw parse_failed{
+            "The input string had the wrong number "
+            "of places after the radix point.",
+            parse_failed::type::wrong_place_limit
+        };
+    }
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::parse_failed
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index fe0fcb8..96bb9d6 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -119,6 +119,7 @@ number_parser::parse_floating_point (
     const std::u32string u32_input{to_u32string(input)};
     const auto format_radix_character{format.get_radix_character()};
     const auto format_radix{format.get_radix()};
+    const auto format_thousands_separator{format.get_thousands_separator()};
     auto radix_character_iterator{
         std::find(
             u32_input.cbegin(),
@@ -134,10 +135,14 @@ number_parser::parse_floating_point (
         format.get_thousands_separator()
     };
     if (radix_character_iterator == u32_input.cend()) {
-        return number_parser::parse_integer<long long>(
-            u32_input,
-            equivalent_format
-        );
+        const auto output{
+            number_parser::parse_integer<long long>(
+                u32_input,
+                equivalent_format
+            )
+        };
+        check_radix_place_count(0, format);
+        return output;
     } else {
         const auto integral_part_start{u32_input.data()};
         const auto integral_part_size{
@@ -177,6 +182,21 @@ number_parser::parse_floating_point (
         int current_digit;;
         unsigned int digits_counted{0};
         while (radix_character_iterator != u32_input.cend()) {
+            if (
+                digits_counted > 0
+                    && digits_counted % 3 == 0
+                    && format_thousands_separator
+                        != thousands_separator::none
+            ) {
+                check_for_thousands_separator(
+                    *radix_character_iterator,
+                    format_thousands_separator
+                );
+                ++radix_character_iterator;
+                if (radix_character_iterator == u32_input.cend()) {
+                    report_non_digit_character();
+                }
+            }
             current_digit = digit_character_to_integer(
                 *radix_character_iterator,
                 format_radix
@@ -198,6 +218,7 @@ number_parser::parse_floating_point (
             }
             ++radix_character_iterator;
         }
+        check_radix_place_count(digits_counted, format);
         return negate ? -output : output;
     }
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 755126c06cd697182969691ce55b1c8b253d472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:45 +0000
Subject: [PATCH 12/37] fix: do not format fractions forever in odd radices

A binary fraction such as 0.5 never terminates in an odd radix, so without a
radix place limit format_floating_point looped until memory ran out. It now
stops at the precision of the input type.
---
 api/include/cmp/unicode/formatters.hpp |  1 +
 api/src/cmp/unicode/formatters.ipp     | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/api/include/cmp/unicode/formatters.hpp b/api/include/cmp/unicode/formatters.hpp
index d593be7..be917fe 100644
--- a/api/include/cmp/unicode/formatters.hpp
+++ b/api/include/cmp/unicode/formatters.hpp
@@ -6,6 +6,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/unicode/algorithms.hpp>
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index 99ca23c..6299607 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -136,7 +136,24 @@ number_formatter::format_floating_point (
         append_code_point(fractional_part_string, character);
         ++radix_places_counted;
     };
-    while (fractional_part != 0) {
+
+    /*
+        A binary fraction has no finite representation in an odd radix. If
+        the number of places isn't limited, we stop at the precision of the
+        input there, otherwise we would produce digits forever.
+    */
+    const bool stop_at_precision{
+        format.get_radix_place_limit() == radix_place_limit::none
+            && format.get_radix() % 2 != 0
+    };
+    Input precision{
+        std::nextafter(input, std::numeric_limits<Input>::max()) - input
+    };
+    while (
+        fractional_part != 0
+            && !(stop_at_precision && precision >= 1)
+    ) {
+        precision *= format.get_radix();
         fractional_part *= format.get_radix();
         char character{static_cast<char>(std::floor(fractional_part))};
         fractional_part -= std::floor(fractional_part);
-- 
2.43.0


From 7954cdc7834a19212a416a37a4f1a184e660e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:56 +0000
Subject: [PATCH 13/37] fix: parse integers exactly or report why they cannot
 be parsed

Accumulating in the output type overflowed (undefined behaviour for signed
types, wrapped values otherwise), the smallest value of signed types could
not be parsed, and a sign in the middle of the digits or a separator in front
of them was accepted. Values that do not fit are reported as out_of_range.
---
 api/include/cmp/unicode/parsers.hpp | 21 +++++++-----
 api/src/cmp/unicode/parsers.cpp     | 38 ++++++++++++++++++++++
 api/src/cmp/unicode/parsers.ipp     | 50 +++++++++++++----------------
 3 files changed, 74 insertions(+), 35 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index c6aa1e9..e365070 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -6,6 +6,8 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstdint>
+#include <limits>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/core/general.hpp>
@@ -101,19 +103,21 @@ private:
         const floating_point_format& format
     );
 
-    template <
-        std::integral Output
-    >
+    CMP_CONDITIONAL_INLINE
+    static
+    void
+    report_out_of_range ();
+
+    CMP_CONDITIONAL_INLINE
     static
     void
     prepend_digit (
-        Output& power,
+        std::uintmax_t& power,
         unsigned int radix,
-        Output& output,
+        std::uintmax_t& magnitude,
         int current_digit,
         unsigned int& digits_counted
-    )
-    noexcept;
+    );
 
     template <
         std::floating_point Output
@@ -153,7 +157,8 @@ public:
         thousands_separator_missing,
         digit_character_expected,
         negative_unsigned,
-        wrong_place_limit
+        wrong_place_limit,
+        out_of_range
     }; // enum ----------------------------------------------------------------
 
     // Constructors and Destructor --------------------------------------------
diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index 3bb0ab4..2907543 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -40,6 +40,44 @@ number_parser::report_non_digit_character ()
     };
 } // function -----------------------------------------------------------------
 
+void
+number_parser::report_out_of_range ()
+{
+    throw parse_failed{
+        "The input string represents a value that is "
+        "out of the range of the output type.",
+        parse_failed::type::out_of_range
+    };
+} // function -----------------------------------------------------------------
+
+void
+number_parser::prepend_digit (
+    std::uintmax_t& power,
+    unsigned int radix,
+    std::uintmax_t& magnitude,
+    int current_digit,
+    unsigned int& digits_counted
+) {
+    constexpr auto maximum{std::numeric_limits<std::uintmax_t>::max()};
+
+    /*
+        A power of zero means that the next place is worth more than the
+        widest unsigned type can hold, so only a zero may appear there.
+    */
+    power = power <= maximum / radix ? power * radix : 0;
+    if (current_digit != 0) {
+        if (
+            power == 0
+                || static_cast<std::uintmax_t>(current_digit)
+                    > (maximum - magnitude) / power
+        ) {
+            report_out_of_range();
+        }
+        magnitude += current_digit * power;
+    }
+    ++digits_counted;
+} // function -----------------------------------------------------------------
+
 int
 number_parser::get_next_digit (
     char32_t character,
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 96bb9d6..398eeb6 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -36,26 +36,30 @@ number_parser::parse_integer (
     const auto format_sign_status{format.get_sign_status()};
 
     int current_digit{get_next_digit(*bcp_iterator, format_radix)};
-    Output output{static_cast<Output>(current_digit)};
+
+    /*
+        We accumulate the magnitude in the widest unsigned type, and
+        only check whether it fits in the output type at the end.
+    */
+    std::uintmax_t magnitude{static_cast<std::uintmax_t>(current_digit)};
 
     ++bcp_iterator;
-    if (bcp_iterator == bcp_range.crend()) {
-        return output;
-    }
 
     bool sign_found{false};
     bool negate{false};
-    Output power{1};
+    std::uintmax_t power{1};
     unsigned int digits_counted{1};
     char32_t current_character;
 
     for (; bcp_iterator != bcp_range.crend(); ++bcp_iterator) {
         current_character = *bcp_iterator;
+        if (sign_found && !is_sign_character(current_character)) {
+            report_non_digit_character();
+        }
         if (
             digits_counted == 3
                 && format_thousands_separator != thousands_separator::none
         ) {
-            digits_counted = 0;
             if (
                 check_for_sign(
                     current_character,
@@ -70,6 +74,7 @@ number_parser::parse_integer (
                 current_character,
                 format_thousands_separator
             );
+            digits_counted = 0;
             continue;
         }
         if (
@@ -88,14 +93,20 @@ number_parser::parse_integer (
         prepend_digit(
             power,
             format_radix,
-            output,
+            magnitude,
             current_digit,
             digits_counted
         );
     }
+    if (digits_counted == 0) {
+        report_non_digit_character();
+    }
+    std::uintmax_t limit{
+        static_cast<std::uintmax_t>(std::numeric_limits<Output>::max())
+    };
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
-            output = -output;
+            ++limit;
         } else {
             throw parse_failed{
                 "The input string contains a negative "
@@ -104,7 +115,10 @@ number_parser::parse_integer (
             };
         }
     }
-    return output;
+    if (magnitude > limit) {
+        report_out_of_range();
+    }
+    return static_cast<Output>(negate ? 0 - magnitude : magnitude);
 } // function -----------------------------------------------------------------
 
 template <
@@ -225,24 +239,6 @@ number_parser::parse_floating_point (
 
 // Private Functions ----------------------------------------------------------
 
-template <
-    std::integral Output
->
-void
-number_parser::prepend_digit (
-    Output& power,
-    unsigned int radix,
-    Output& output,
-    int current_digit,
-    unsigned int& digits_counted
-)
-noexcept
-{
-    power *= radix;
-    output += current_digit * power;
-    ++digits_counted;
-} // function -----------------------------------------------------------------
-
 template <
     std::floating_point Output
 >
-- 
2.43.0


From 2401cd6cb59585f1fc2ba56c42cb801bc9ff8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:46 +0000
Subject: [PATCH 14/37] fix: do not invert the endianness of data read from a
 stream twice

---
 api/include/cmp/io/data_input_stream.hpp | 2 +-
 api/src/cmp/io/data_input_stream.ipp     | 9 ---------
 2 files changed, 1 insertion(+), 10 deletions(-)

diff --git a/api/include/cmp/io/data_input_stream.hpp b/api/include/cmp/io/data_input_stream.hpp
index ee3f6e6..7d636ac 100644
--- a/api/include/cmp/io/data_input_stream.hpp
+++ b/api/include/cmp/io/data_input_stream.hpp
@@ -47,7 +47,7 @@ public:
     explicit
     data_input_stream (
         referenced_resource_type& resource,
-        std::endian endianness = std::endian::big
+        std::endian endianness = std::endian::native
     )
     noexcept;
 
diff --git a/api/src/cmp/io/data_input_stream.ipp b/api/src/cmp/io/data_input_stream.ipp
index 8a1d73a..f5d7357 100644
--- a/api/src/cmp/io/data_input_stream.ipp
+++ b/api/src/cmp/io/data_input_stream.ipp
@@ -54,15 +54,6 @@ operator >> (
         throw read_past_end{};
     }
 
-    /*
-        Then we check whether the endianness of the stream matches
-        the endianness of the system. If it doesn't, we invert the
-        endianness of the data that we just read.
-    */
-    if (stream.get_endianness() != std::endian::native) {
-        invert_endianness(data, byte_count);
-    }
-
     /*
         At this point we have an array of raw bytes that represent the data
         read from the stream, in the correct endianness for this system to
-- 
2.43.0


From 70489a738dc9f275235b772d773991416957c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:46 +0000
Subject: [PATCH 15/37] fix: only invert the endianness of bytes that were
 actually read

---
 api/src/cmp/io/general.cpp      | 3 +++
 api/src/cmp/io/input_stream.ipp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/io/general.cpp b/api/src/cmp/io/general.cpp
index 36f7ccb..b363a13 100644
--- a/api/src/cmp/io/general.cpp
+++ b/api/src/cmp/io/general.cpp
@@ -14,6 +14,9 @@ invert_endianness (
 )
 noexcept
 {
+    if (byte_count == 0) {
+        return;
+    }
     std::byte* begin{data};
     std::byte* end{data + byte_count - 1};
     while (begin < end) {
diff --git a/api/src/cmp/io/input_stream.ipp b/api/src/cmp/io/input_stream.ipp
index 6d4e953..e9a2069 100644
--- a/api/src/cmp/io/input_stream.ipp
+++ b/api/src/cmp/io/input_stream.ipp
@@ -88,7 +88,7 @@ input_stream<InputResource>::read (
 ) {
     std::size_t bytes_read{m_resource.read(data, byte_count)};
     if (m_endianness != std::endian::native) {
-        invert_endianness(data, byte_count);
+        invert_endianness(data, bytes_read);
     }
     return bytes_read;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From f914db9b2354c0a4b586bf2cd860539e84a17959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:06 +0000
Subject: [PATCH 16/37] fix: keep the high bytes of the first code unit when
 there is no byte order mark

---
 api/src/cmp/io/text_input_stream.ipp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index ac431a1..c52b94a 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -327,11 +327,11 @@ text_input_stream<InputResource>::read_utf16_bom ()
         char16_t code_unit;
         if (this->get_endianness() == std::endian::big) {
             code_unit
-                = static_cast<int>(first_byte << 8)
+                = static_cast<int>(first_byte) << 8
                     | static_cast<int>(second_byte);
         } else {
             code_unit
-                = static_cast<int>(second_byte << 8)
+                = static_cast<int>(second_byte) << 8
                     | static_cast<int>(first_byte);
         }
         char32_t result;
@@ -385,15 +385,15 @@ text_input_stream<InputResource>::read_utf32_bom ()
         char32_t result;
         if (this->get_endianness() == std::endian::big) {
             result
-                = static_cast<int>(first_byte << 24)
-                    | static_cast<int>(second_byte << 16)
-                    | static_cast<int>(third_byte << 8)
+                = static_cast<int>(first_byte) << 24
+                    | static_cast<int>(second_byte) << 16
+                    | static_cast<int>(third_byte) << 8
                     | static_cast<int>(fourth_byte);
         } else {
             result
-                = static_cast<int>(fourth_byte << 24)
-                    | static_cast<int>(third_byte << 16)
-                    | static_cast<int>(second_byte << 8)
+                = static_cast<int>(fourth_byte) << 24
+                    | static_cast<int>(third_byte) << 16
+                    | static_cast<int>(second_byte) << 8
                     | static_cast<int>(first_byte);
         }
         return result;
-- 
2.43.0


From 2434e043ce20834b0119356da979192483559d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:22 +0000
Subject: [PATCH 17/37] fix: complete reads and writes that the operating
 system cut short or interrupted

---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  1 +
 .../cmp/io/impl/unix_like/unix_like_uin.hpp   |  1 +
 .../cmp/io/impl/unix_like/unix_like_uout.hpp  |  1 +
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 30 +++++++++++++++----
 .../cmp/io/impl/unix_like/unix_like_uin.cpp   |  6 +++-
 .../cmp/io/impl/unix_like/unix_like_uout.cpp  | 21 ++++++++++---
 6 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index 8d33fea..aa21625 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 
+#include <cerrno>
 #include <fcntl.h>
 #include <unistd.h>
 
diff --git a/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp b/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
index e12cb49..50e52d7 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_IO_UNIX_LIKE_UIN_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_UIN_HPP_INCLUDED
 
+#include <cerrno>
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
diff --git a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
index d0ee464..f0dd8d6 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_IO_UNIX_LIKE_UOUT_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_UOUT_HPP_INCLUDED
 
+#include <cerrno>
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index e2d66de..0de866a 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -225,7 +225,14 @@ noexcept
     ssize_t bytes_read_last;
     ssize_t bytes_read_total{0};
     while (true) {
-        bytes_read_last = ::read(m_file_descriptor, data, byte_count);
+        bytes_read_last = ::read(
+            m_file_descriptor,
+            data + bytes_read_total,
+            byte_count - bytes_read_total
+        );
+        if (bytes_read_last == -1 && errno == EINTR) {
+            continue;
+        }
         if (bytes_read_last == -1 || bytes_read_last == 0) {
             break;
         }
@@ -245,11 +252,24 @@ file::write_block (
 )
 noexcept
 {
-    ssize_t native_bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (native_bytes_written == -1) {
-        return 0;
+    ssize_t bytes_written_last;
+    ssize_t bytes_written_total{0};
+    while (bytes_written_total < byte_count) {
+        bytes_written_last = ::write(
+            m_file_descriptor,
+            data + bytes_written_total,
+            byte_count - bytes_written_total
+        );
+        if (bytes_written_last == -1 && errno == EINTR) {
+            continue;
+        }
+        if (bytes_written_last == -1 || bytes_written_last == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written_last;
     }
-    return native_bytes_written;
+
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
index 10e8db6..234a64e 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
@@ -36,7 +36,11 @@ stdin_resource::read_raw (
     std::size_t byte_count,
     read_request rr
 ) {
-    return ::read(STDIN_FILENO, data, byte_count);
+    ssize_t bytes_read;
+    do {
+        bytes_read = ::read(STDIN_FILENO, data, byte_count);
+    } while (bytes_read == -1 && errno == EINTR);
+    return bytes_read == -1 ? 0 : bytes_read;
 } // function -----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::stdin_stream
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
index e7143e7..0b8c706 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
@@ -36,11 +36,24 @@ stdout_resource::write_raw (
     const std::byte* data,
     std::size_t byte_count
 ) {
-    ssize_t bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (bytes_written == -1) {
-        return 0;
+    std::size_t bytes_written_total{0};
+    while (bytes_written_total < byte_count) {
+        ssize_t bytes_written{
+            ::write(
+                m_file_descriptor,
+                data + bytes_written_total,
+                byte_count - bytes_written_total
+            )
+        };
+        if (bytes_written == -1 && errno == EINTR) {
+            continue;
+        }
+        if (bytes_written == -1 || bytes_written == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written;
     }
-    return bytes_written;
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 #if CMP_CONFIG_HEADER_ONLY == false
-- 
2.43.0


From 4d0486ec9dcb02fb33ce1527f88f17438daa8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:42 +0000
Subject: [PATCH 18/37] fix: do not read buffered bytes again after a read
 larger than the buffer

---
 api/src/cmp/io/impl/ctr_essence.ipp              | 2 +-
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 2 +-
 api/src/cmp/io/impl/windows/windows_file.cpp     | 2 +-
 api/src/cmp/io/input_resource.cpp                | 8 ++++++++
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index a823097..d1a42b5 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -119,7 +119,7 @@ ctr_essence<Container>::read_raw (
 
     const auto& content_ref{*get_const_content_ptr()};
 
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         resource.go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 0de866a..3b983b1 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -138,7 +138,7 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9025917..9f0c65a 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -165,7 +165,7 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
+    if (m_last_fill_amount > 0) {
         go_forward(m_last_fill_amount);
     }
 
diff --git a/api/src/cmp/io/input_resource.cpp b/api/src/cmp/io/input_resource.cpp
index d1bdd87..b80f92c 100644
--- a/api/src/cmp/io/input_resource.cpp
+++ b/api/src/cmp/io/input_resource.cpp
@@ -125,6 +125,14 @@ input_resource::read_buffered (
                 byte_count,
                 read_request::lean_retrieval
             );
+
+            /*
+                The resource is now past the
+                data that was in the buffer.
+            */
+            m_buffer.set_read_dirty(true);
+            m_buffer.set_size(0);
+
             return bytes_read;
         } else {
             /*
-- 
2.43.0


From ed2dee246480d0c15e65ac0003a7926cd28dfbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:35 +0000
Subject: [PATCH 19/37] fix: seek relative to the logical position when data
 has been buffered

---
 api/include/cmp/io/impl/ctr_essence.hpp               |  3 +--
 api/src/cmp/io/impl/ctr_essence.ipp                   |  8 ++++----
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp      | 10 ++++++++--
 api/src/cmp/io/impl/windows/windows_file.cpp          | 10 ++++++++--
 api/src/cmp/io/opaque_container_input_resource.ipp    |  3 +--
 api/src/cmp/io/opaque_container_io_resource.ipp       |  3 +--
 api/src/cmp/io/seekable_input_resource.ipp            |  8 ++++++++
 api/src/cmp/io/seekable_io_resource.ipp               | 11 +++++++++++
 api/src/cmp/io/seekable_transfer_resource.ipp         |  4 ++--
 .../cmp/io/transparent_container_input_resource.ipp   |  3 +--
 api/src/cmp/io/transparent_container_io_resource.ipp  |  3 +--
 11 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/api/include/cmp/io/impl/ctr_essence.hpp b/api/include/cmp/io/impl/ctr_essence.hpp
index 2d8b6f1..1375411 100644
--- a/api/include/cmp/io/impl/ctr_essence.hpp
+++ b/api/include/cmp/io/impl/ctr_essence.hpp
@@ -69,8 +69,7 @@ protected:
     read_raw (
         std::byte* data,
         std::size_t byte_count,
-        read_request rr,
-        seekable_input_resource<std::int64_t>& resource
+        read_request rr
     );
 
     std::size_t
diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index d1a42b5..6bd7718 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -112,15 +112,15 @@ std::size_t
 ctr_essence<Container>::read_raw (
     std::byte *data,
     std::size_t byte_count,
-    cmp::read_request rr,
-    seekable_input_resource<std::int64_t>& resource
+    cmp::read_request rr
 ) {
     using element_type = typename Container::value_type;
 
     const auto& content_ref{*get_const_content_ptr()};
 
     if (m_last_fill_amount > 0) {
-        resource.go_forward(m_last_fill_amount);
+        m_position += m_last_fill_amount;
+        m_last_fill_amount = 0;
     }
 
     /*
@@ -163,7 +163,7 @@ ctr_essence<Container>::read_raw (
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        resource.go_back(static_cast<std::int64_t>(byte_count));
+        m_position -= static_cast<std::int64_t>(byte_count);
         m_last_fill_amount = byte_count;
     }
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 3b983b1..b986f00 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -139,7 +139,10 @@ file::read_raw (
 noexcept
 {
     if (m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+        set_position_raw(
+            static_cast<position_type>(m_last_fill_amount),
+            position_reference::current
+        );
     }
 
     std::size_t total_result;
@@ -172,7 +175,10 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        set_position_raw(
+            -static_cast<position_type>(total_result),
+            position_reference::current
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9f0c65a..6b27342 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -166,7 +166,10 @@ file::read_raw (
 noexcept
 {
     if (m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+        set_position_raw(
+            static_cast<position_type>(m_last_fill_amount),
+            position_reference::current
+        );
     }
 
     std::size_t total_result;
@@ -199,7 +202,10 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        set_position_raw(
+            -static_cast<position_type>(total_result),
+            position_reference::current
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/opaque_container_input_resource.ipp b/api/src/cmp/io/opaque_container_input_resource.ipp
index 34189b7..0e768d1 100644
--- a/api/src/cmp/io/opaque_container_input_resource.ipp
+++ b/api/src/cmp/io/opaque_container_input_resource.ipp
@@ -118,8 +118,7 @@ opaque_container_input_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index d6c6e7c..c460a0d 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -142,8 +142,7 @@ opaque_container_io_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/seekable_input_resource.ipp b/api/src/cmp/io/seekable_input_resource.ipp
index 25b359c..1052df3 100644
--- a/api/src/cmp/io/seekable_input_resource.ipp
+++ b/api/src/cmp/io/seekable_input_resource.ipp
@@ -33,6 +33,14 @@ seekable_input_resource<Position>::set_position (
 )
 noexcept
 {
+    /*
+        The underlying resource is still where the buffer
+        was filled from, so we account for what has already
+        been read from the buffer.
+    */
+    if (pr == position_reference::current) {
+        new_position += static_cast<position_type>(m_buffer.get_position());
+    }
     this->set_position_raw(new_position, pr);
     m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 7799a9b..26f7bd8 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -34,6 +34,17 @@ seekable_io_resource<Position>::set_position (
 noexcept
 {
     this->flush();
+
+    /*
+        The underlying resource is still where the buffer
+        was filled from, so we account for what has already
+        been read from the buffer.
+    */
+    if (pr == position_reference::current) {
+        new_position += static_cast<position_type>(
+            transfer_resource::m_buffer.get_position()
+        );
+    }
     this->set_position_raw(new_position, pr);
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_transfer_resource.ipp b/api/src/cmp/io/seekable_transfer_resource.ipp
index c29053d..7f6b85e 100644
--- a/api/src/cmp/io/seekable_transfer_resource.ipp
+++ b/api/src/cmp/io/seekable_transfer_resource.ipp
@@ -30,7 +30,7 @@ seekable_transfer_resource<Position>::go_back (
 )
 noexcept
 {
-    set_position_raw(-count, position_reference::current);
+    set_position(-count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 template <
@@ -42,7 +42,7 @@ seekable_transfer_resource<Position>::go_forward (
 )
 noexcept
 {
-    set_position_raw(count, position_reference::current);
+    set_position(count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/transparent_container_input_resource.ipp b/api/src/cmp/io/transparent_container_input_resource.ipp
index 78dad08..19761e7 100644
--- a/api/src/cmp/io/transparent_container_input_resource.ipp
+++ b/api/src/cmp/io/transparent_container_input_resource.ipp
@@ -87,8 +87,7 @@ transparent_container_input_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/transparent_container_io_resource.ipp b/api/src/cmp/io/transparent_container_io_resource.ipp
index 2576e8d..2104f1c 100644
--- a/api/src/cmp/io/transparent_container_io_resource.ipp
+++ b/api/src/cmp/io/transparent_container_io_resource.ipp
@@ -104,8 +104,7 @@ transparent_container_io_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 77869a8aabd3e4e8860932a52442b3e59fe11303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:08 +0000
Subject: [PATCH 20/37] fix: let reads and writes on the same resource see each
 other

---
 api/include/cmp/io/seekable_io_resource.hpp | 45 +++++++++++++++++++++
 api/src/cmp/io/file.cpp                     |  4 +-
 api/src/cmp/io/seekable_io_resource.ipp     | 28 +++++++++++++
 3 files changed, 75 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/io/seekable_io_resource.hpp b/api/include/cmp/io/seekable_io_resource.hpp
index b8a8d5f..fa25717 100644
--- a/api/include/cmp/io/seekable_io_resource.hpp
+++ b/api/include/cmp/io/seekable_io_resource.hpp
@@ -136,6 +136,51 @@ public:
         position_reference pr
     )
     noexcept override;
+
+    // Core -------------------------------------------------------------------
+
+    /**
+        Description:
+            Reads <#parameter>byte_count</#parameter> bytes
+            from <#this/> seekable I/O resource and places them in
+            the provided <#parameter>data</#parameter> array. Any data
+            that is still to be written out is written out beforehand.
+
+        Parameters:
+            data:
+                The array into which the read bytes will be placed.
+            byte_count:
+                The number of bytes to read from
+                <#this/> seekable I/O resource.
+    */
+    std::size_t
+    read (
+        std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+    /**
+        Description:
+            Writes <#parameter>byte_count</#parameter> bytes
+            from the <#parameter>data</#parameter> array to
+            <#this/> seekable I/O resource. Any data that was
+            read in advance is discarded beforehand.
+
+        Parameters:
+            data:
+                The array of bytes that will be written
+                to <#this/> seekable I/O resource.
+            byte_count:
+                The number of bytes to write to
+                <#this/> seekable I/O resource.
+    */
+    std::size_t
+    write (
+        const std::byte* data,
+        std::size_t byte_count
+    )
+    override;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/file.cpp b/api/src/cmp/io/file.cpp
index 4f3abd6..27c8efc 100644
--- a/api/src/cmp/io/file.cpp
+++ b/api/src/cmp/io/file.cpp
@@ -58,7 +58,7 @@ basic_file::read (
     switch (m_access_mode) {
         case read_only:
         case read_and_write: {
-            return input_resource::read(data, byte_count);
+            return seekable_io_resource::read(data, byte_count);
         }
         case write_only:
             throw invalid_access_mode{};
@@ -75,7 +75,7 @@ basic_file::write (
             throw invalid_access_mode{};
         case write_only:
         case read_and_write: {
-            return output_resource::write(data, byte_count);
+            return seekable_io_resource::write(data, byte_count);
         }
     }
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 26f7bd8..333746f 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -49,4 +49,32 @@ noexcept
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
 
+// Core -----------------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::read (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    this->flush();
+    return input_resource::read(data, byte_count);
+} // function -----------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::write (
+    const std::byte* data,
+    std::size_t byte_count
+) {
+    if (!transfer_resource::m_buffer.is_read_dirty()) {
+        this->set_position(0, position_reference::current);
+    }
+    return output_resource::write(data, byte_count);
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 0a7f37ed04d2c6c2e433576f0b55f8985929ebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:38 +0000
Subject: [PATCH 21/37] fix: count the position of container resources in bytes
 and keep it within bounds

---
 api/src/cmp/io/impl/ctr_essence.ipp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index 6bd7718..ba64e4d 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -62,7 +62,7 @@ const noexcept
 {
     using element_type = typename Container::value_type;
 
-    return get_position(buffer) ==
+    return get_position(buffer) >=
         std::size(*get_const_content_ptr()) * sizeof (element_type);
 } // function -----------------------------------------------------------------
 
@@ -92,16 +92,19 @@ noexcept
 
     switch (pr) {
         case position_reference::begin:
-            m_position = new_position * sizeof (element_type);
+            m_position = new_position;
             break;
         case position_reference::current:
-            m_position += new_position * sizeof (element_type);
+            m_position += new_position;
             break;
         case position_reference::end:
-            m_position = (std::size(*get_const_content_ptr()) - new_position)
-                * sizeof (element_type);
+            m_position = std::size(*get_const_content_ptr())
+                * sizeof (element_type) + new_position;
             break;
     }
+    if (m_position < 0) {
+        m_position = 0;
+    }
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
@@ -140,7 +143,12 @@ ctr_essence<Container>::read_raw (
             there are bytes available. So we adjust the number of bytes
             to read such that we only read until the end of the content.
         */
-        byte_count = content_size - m_position;
+        byte_count = m_position < content_size
+            ? content_size - m_position
+            : 0;
+    }
+    if (byte_count == 0) {
+        return 0;
     }
 
     /*
@@ -182,6 +190,10 @@ ctr_essence<Container>::write_raw (
 
     auto& content_ref{*get_content_ptr()};
 
+    if (byte_count == 0) {
+        return 0;
+    }
+
     /*
         We compute the number of bytes stored in the content.
     */
@@ -199,8 +211,8 @@ ctr_essence<Container>::write_raw (
             than there are bytes available. So we just make room.
         */
         content_ref.resize(
-            std::size(content_ref)
-                + (byte_count / sizeof (element_type))
+            (m_position + byte_count + sizeof (element_type) - 1)
+                / sizeof (element_type)
         );
     }
 
-- 
2.43.0


From 981ce468c1abfe54a7c386055876519bbddbc77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:56 +0000
Subject: [PATCH 22/37] fix: do not terminate or run past the end when a file's
 position leaves its content

---
 api/src/cmp/io/file.cpp                          |  6 +++++-
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 10 +++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/io/file.cpp b/api/src/cmp/io/file.cpp
index 27c8efc..0caa3f0 100644
--- a/api/src/cmp/io/file.cpp
+++ b/api/src/cmp/io/file.cpp
@@ -45,7 +45,11 @@ bool
 basic_file::is_at_end ()
 const noexcept
 {
-    return get_position() == std::filesystem::file_size(m_file_path);
+    std::error_code ec;
+    const std::uintmax_t file_size{
+        std::filesystem::file_size(m_file_path, ec)
+    };
+    return ec || get_position() >= file_size;
 } // function -----------------------------------------------------------------
 
 // Core -----------------------------------------------------------------------
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index b986f00..3b6d764 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -125,7 +125,15 @@ noexcept
             break;
     }
 
-    ::lseek(m_file_descriptor, new_position, unix_like_position_reference);
+    if (
+        ::lseek(m_file_descriptor, new_position, unix_like_position_reference)
+            == -1
+    ) {
+        /*
+            The new position would be before the beginning of the file.
+        */
+        ::lseek(m_file_descriptor, 0, SEEK_SET);
+    }
 
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 34000e6d0bbde1b3122415dfb8da571b3a2c43f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:16 +0000
Subject: [PATCH 23/37] fix: forget the path and buffer of the previous file
 when opening another one

---
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 3b6d764..dcebae0 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -61,9 +61,7 @@ file::open (
 )
 noexcept
 {
-    if (is_open()) {
-        close();
-    }
+    close();
     std::error_code ec;
     if (
         if_file_not_there == if_not_there::fail
@@ -87,6 +85,7 @@ noexcept
         flags |= O_CREAT;
     }
     m_file_descriptor = ::open(file_path.string().c_str(), flags, 0777);
+    m_file_path = file_path;
     m_access_mode = mode;
     return is_open();
 } // function -----------------------------------------------------------------
@@ -95,9 +94,19 @@ void
 file::close ()
 noexcept
 {
-    this->flush();
-    ::close(m_file_descriptor);
-    m_file_descriptor = -1;
+    if (is_open()) {
+        this->flush();
+        ::close(m_file_descriptor);
+        m_file_descriptor = -1;
+    }
+
+    /*
+        Nothing that is still in the buffer has
+        anything to do with the next file to be opened.
+    */
+    m_buffer.set_write_dirty(false);
+    m_buffer.set_read_dirty(true);
+    m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
 // Protected Functions --------------------------------------------------------
-- 
2.43.0


From 87ea64a51697417d9232990c0c51f04a40e4baec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 24/37] fix: hand over the descriptor and the buffer when a
 file is moved

---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  5 ++--
 api/include/cmp/io/transfer_resource.hpp      |  2 +-
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 30 +++++++++++++++++++
 api/src/cmp/io/io_buffer.cpp                  |  2 +-
 api/src/cmp/io/transfer_resource.cpp          | 17 +++++++++++
 5 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index aa21625..a1a3d46 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -7,6 +7,7 @@
 #include <cerrno>
 #include <fcntl.h>
 #include <unistd.h>
+#include <utility>
 
 #include <cmp/io/inclusion_assert.hpp>
 #include <cmp/io/file.hpp>
@@ -54,14 +55,14 @@ public:
     file (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     CMP_CONDITIONAL_INLINE
     file&
     operator = (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/include/cmp/io/transfer_resource.hpp b/api/include/cmp/io/transfer_resource.hpp
index a137448..a56040c 100644
--- a/api/include/cmp/io/transfer_resource.hpp
+++ b/api/include/cmp/io/transfer_resource.hpp
@@ -107,7 +107,7 @@ public:
     operator = (
         transfer_resource&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index dcebae0..1da8391 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -35,6 +35,36 @@ file::~file ()
     close();
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+file::file (
+    file&& other
+)
+noexcept
+    : transfer_resource{std::move(other)}
+    , seekable_input_resource{std::move(other)}
+    , seekable_output_resource{std::move(other)}
+    , basic_file{std::move(other)}
+    , m_file_descriptor{std::exchange(other.m_file_descriptor, -1)}
+{
+    other.close();
+} // function -----------------------------------------------------------------
+
+file&
+file::operator = (
+    file&& other
+)
+noexcept
+{
+    if (this != &other) {
+        close();
+        basic_file::operator = (std::move(other));
+        m_file_descriptor = std::exchange(other.m_file_descriptor, -1);
+        other.close();
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 bool
diff --git a/api/src/cmp/io/io_buffer.cpp b/api/src/cmp/io/io_buffer.cpp
index 74dc0f4..62d37c6 100644
--- a/api/src/cmp/io/io_buffer.cpp
+++ b/api/src/cmp/io/io_buffer.cpp
@@ -27,7 +27,7 @@ std::size_t
 io_buffer::get_capacity ()
 const noexcept
 {
-    return m_data.capacity();
+    return m_data.size();
 } // function -----------------------------------------------------------------
 
 std::size_t
diff --git a/api/src/cmp/io/transfer_resource.cpp b/api/src/cmp/io/transfer_resource.cpp
index cc80baa..732e121 100644
--- a/api/src/cmp/io/transfer_resource.cpp
+++ b/api/src/cmp/io/transfer_resource.cpp
@@ -16,4 +16,21 @@ transfer_resource::transfer_resource (
 {
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+transfer_resource&
+transfer_resource::operator = (
+    transfer_resource&& other
+)
+noexcept
+{
+    /*
+        This class is a virtual base class, so this operator may be called
+        several times when a resource is moved. That's why the buffer is
+        left in place instead of being moved away the first time.
+    */
+    m_buffer = other.m_buffer;
+    return *this;
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From eefbc75fc9914b54ba88480e2d2df54abb2fdb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:38 +0000
Subject: [PATCH 25/37] fix: let copies of opaque container resources use their
 own content

---
 api/include/cmp/io/impl/ctr_essence.hpp       |  2 ++
 .../io/opaque_container_input_resource.hpp    |  8 ++++++++
 .../cmp/io/opaque_container_io_resource.hpp   |  8 ++++++++
 .../io/opaque_container_output_resource.hpp   |  8 ++++++++
 .../io/opaque_container_input_resource.ipp    | 20 +++++++++++++++++++
 .../cmp/io/opaque_container_io_resource.ipp   | 20 +++++++++++++++++++
 .../io/opaque_container_output_resource.ipp   | 20 +++++++++++++++++++
 7 files changed, 86 insertions(+)

diff --git a/api/include/cmp/io/impl/ctr_essence.hpp b/api/include/cmp/io/impl/ctr_essence.hpp
index 1375411..d82173f 100644
--- a/api/include/cmp/io/impl/ctr_essence.hpp
+++ b/api/include/cmp/io/impl/ctr_essence.hpp
@@ -38,10 +38,12 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    virtual
     Container*
     get_content_ptr ()
     noexcept;
 
+    virtual
     const Container*
     get_const_content_ptr ()
     const noexcept;
diff --git a/api/include/cmp/io/opaque_container_input_resource.hpp b/api/include/cmp/io/opaque_container_input_resource.hpp
index be71bc8..983a9f4 100644
--- a/api/include/cmp/io/opaque_container_input_resource.hpp
+++ b/api/include/cmp/io/opaque_container_input_resource.hpp
@@ -205,6 +205,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/include/cmp/io/opaque_container_io_resource.hpp b/api/include/cmp/io/opaque_container_io_resource.hpp
index 4c9ede5..23b4f91 100644
--- a/api/include/cmp/io/opaque_container_io_resource.hpp
+++ b/api/include/cmp/io/opaque_container_io_resource.hpp
@@ -235,6 +235,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/include/cmp/io/opaque_container_output_resource.hpp b/api/include/cmp/io/opaque_container_output_resource.hpp
index c31d4c1..96baefb 100644
--- a/api/include/cmp/io/opaque_container_output_resource.hpp
+++ b/api/include/cmp/io/opaque_container_output_resource.hpp
@@ -213,6 +213,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/src/cmp/io/opaque_container_input_resource.ipp b/api/src/cmp/io/opaque_container_input_resource.ipp
index 0e768d1..9e54a88 100644
--- a/api/src/cmp/io/opaque_container_input_resource.ipp
+++ b/api/src/cmp/io/opaque_container_input_resource.ipp
@@ -90,6 +90,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_input_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_input_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index c460a0d..ea29e88 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -114,6 +114,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_io_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_io_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
diff --git a/api/src/cmp/io/opaque_container_output_resource.ipp b/api/src/cmp/io/opaque_container_output_resource.ipp
index aecbe92..d32fbc1 100644
--- a/api/src/cmp/io/opaque_container_output_resource.ipp
+++ b/api/src/cmp/io/opaque_container_output_resource.ipp
@@ -100,6 +100,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_output_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_output_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
-- 
2.43.0


From 7dc17ae418004a7ccca9d912b7e967f4d79822d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:38 +0000
Subject: [PATCH 26/37] fix: forget the native window of a window that has been
 closed

---
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp   | 48 +++++++++++++------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 40899f3..2daaa6a 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -267,22 +267,38 @@ forward_close_event_to_window (
     auto& window_associations{
         dgui_app()->grab_native_handle().window_associations
     };
-    for (
-        auto current_association{std::begin(window_associations)};
-        current_association != std::end(window_associations);
-        ++current_association
-    ) {
-        if (current_association->first == window_handle) {
-            close_event ev{true};
-            current_association->second->handle_close_event(ev);
-            if (ev.should_close()) {
-                window_associations.erase(current_association);
-                return FALSE;
-            } else {
-                return TRUE;
-            }
+    auto find_association{
+        [&window_associations, window_handle] () {
+            return std::find_if(
+                std::begin(window_associations),
+                std::end(window_associations),
+                [window_handle] (const auto& element) {
+                    return element.first == window_handle;
+                }
+            );
         }
+    };
+    auto association{find_association()};
+    if (association == std::end(window_associations)) {
+        return FALSE;
+    }
+    close_event ev{true};
+    association->second->handle_close_event(ev);
+    if (!ev.should_close()) {
+        return TRUE;
+    }
+
+    /*
+        The handler may have opened, closed or moved windows,
+        so we look for the window that is being closed again.
+    */
+    association = find_association();
+    if (association != std::end(window_associations)) {
+        association->second->grab_native_handle().gtk_application_window
+            = NULL;
+        window_associations.erase(association);
     }
+    return FALSE;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
@@ -488,6 +504,10 @@ window::hide ()
 void
 window::close ()
 {
+    if (m_native_handle.gtk_application_window == NULL) {
+        return;
+    }
+
     gtk_window_close(GTK_WINDOW(m_native_handle.gtk_application_window));
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From ad9dc4d3419edfbfdade39cf1ecc4799913dac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:38 +0000
Subject: [PATCH 27/37] fix: destroy the native window together with its window
 object

---
 .../cmp/desktop_gui/impl/gtk/gtk_window.hpp   |  7 ++++--
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp   | 25 +++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp b/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
index f5c4e57..71b1903 100755
--- a/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
+++ b/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
@@ -28,8 +28,7 @@ public:
         window_mode initial_mode
     );
 
-    ~window ()
-    = default;
+    ~window ();
 
     // Copy Operations --------------------------------------------------------
 
@@ -145,6 +144,10 @@ private:
     void
     fix_association ()
     noexcept;
+
+    void
+    release ()
+    noexcept;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 2daaa6a..00a0325 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -317,6 +317,11 @@ window::window (
     open(initial_width, initial_height, initial_title, initial_mode);
 } // function -----------------------------------------------------------------
 
+window::~window ()
+{
+    release();
+} // function -----------------------------------------------------------------
+
 // Move Operations ------------------------------------------------------------
 
 window::window (
@@ -342,6 +347,7 @@ noexcept
 {
     if (this != &other) {
         close();
+        release();
 
         m_native_handle = other.m_native_handle;
         m_start_time = other.m_start_time;
@@ -562,4 +568,23 @@ noexcept
     association_iterator->second = this;
 } // function -----------------------------------------------------------------
 
+void
+window::release ()
+noexcept
+{
+    if (m_native_handle.gtk_application_window == NULL) {
+        return;
+    }
+    if (dgui_app() != nullptr) {
+        std::erase_if(
+            dgui_app()->grab_native_handle().window_associations,
+            [this] (const auto& element) {
+                return element.first == m_native_handle.gtk_application_window;
+            }
+        );
+    }
+    gtk_window_destroy(GTK_WINDOW(m_native_handle.gtk_application_window));
+    m_native_handle.gtk_application_window = NULL;
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 13fe63ecc1f7c6ed9b685b06cc059d11f704e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:38 +0000
Subject: [PATCH 28/37] fix: let windows be opened, closed and moved while
 windows are being updated

---
 .../impl/gtk/gtk_desktop_gui_application.cpp  | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
index 8c73ba9..491e966 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
@@ -88,11 +88,25 @@ desktop_gui_application::run ()
         if (g_main_context_pending(context)) {
             g_main_context_dispatch(context);
         } else {
-            for (
-                auto& current_association
-                    : m_native_handle.window_associations
-            ) {
-                impl::update_window(current_association.second);
+            /*
+                Updating a window may open, close or move windows, so
+                we go through a copy of the associations and only update
+                windows that are still there.
+            */
+            const auto associations{m_native_handle.window_associations};
+            for (const auto& current_association : associations) {
+                for (
+                    const auto& up_to_date_association
+                        : m_native_handle.window_associations
+                ) {
+                    if (
+                        up_to_date_association.first
+                            == current_association.first
+                    ) {
+                        impl::update_window(up_to_date_association.second);
+                        break;
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From cea63addf2b722153cb57c70fdc9acb9799a9d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:16 +0000
Subject: [PATCH 29/37] fix: do not refer to an application object that no
 longer exists

---
 api/include/cmp/core/application.hpp | 3 +--
 api/src/cmp/core/application.cpp     | 7 +++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/core/application.hpp b/api/include/cmp/core/application.hpp
index 11e3027..e0453ee 100644
--- a/api/include/cmp/core/application.hpp
+++ b/api/include/cmp/core/application.hpp
@@ -45,8 +45,7 @@ public:
 
     CMP_CONDITIONAL_INLINE
     virtual
-    ~application ()
-    = default;
+    ~application ();
 
     // Copy Operations --------------------------------------------------------
 
diff --git a/api/src/cmp/core/application.cpp b/api/src/cmp/core/application.cpp
index c9baf05..f9e1f6f 100644
--- a/api/src/cmp/core/application.cpp
+++ b/api/src/cmp/core/application.cpp
@@ -20,6 +20,13 @@ noexcept
     g_instance_ptr = this;
 } // function -----------------------------------------------------------------
 
+application::~application ()
+{
+    if (g_instance_ptr == this) {
+        g_instance_ptr = nullptr;
+    }
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 application*
-- 
2.43.0


From 54c1c996378b23ca92dfc709964b3b12d3eb0fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:31 +0000
Subject: [PATCH 30/37] fix: let views and constant strings be validated

---
 api/include/cmp/core/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/include/cmp/core/type_traits.hpp b/api/include/cmp/core/type_traits.hpp
index 1462e75..d5cf11f 100644
--- a/api/include/cmp/core/type_traits.hpp
+++ b/api/include/cmp/core/type_traits.hpp
@@ -53,7 +53,7 @@ template <
     typename T
 >
 using value_type_t
-    = std::remove_reference_t<decltype(*std::begin(std::declval<T&>()))>;
+    = std::remove_cvref_t<decltype(*std::begin(std::declval<T&>()))>;
 
 template <
     typename T,
-- 
2.43.0


From b6507410dcd7d7d00a7e6759a62b809aacb27af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:29 +0000
Subject: [PATCH 31/37] fix: keep what is read from and written to an I/O
 resource apart

Reading ahead and writing share one buffer. Writing after reading sent
the bytes that had been read along with those written, and the unread
ones were lost.
---
 api/include/cmp/io/io_resource.hpp | 45 ++++++++++++++++++++++++++++++
 api/src/cmp/io/io_resource.cpp     | 25 +++++++++++++++++
 2 files changed, 70 insertions(+)

diff --git a/api/include/cmp/io/io_resource.hpp b/api/include/cmp/io/io_resource.hpp
index 30102fd..7bcf0ba 100644
--- a/api/include/cmp/io/io_resource.hpp
+++ b/api/include/cmp/io/io_resource.hpp
@@ -112,6 +112,51 @@ public:
         io_resource&& other
     )
     noexcept = default;
+
+    // Core -------------------------------------------------------------------
+
+    /**
+        Description:
+            Reads <#parameter>byte_count</#parameter> bytes
+            from <#this/> I/O resource and places them in the
+            provided <#parameter>data</#parameter> array. Any data
+            that is still to be written out is written out beforehand.
+
+        Parameters:
+            data:
+                The array into which the read bytes will be placed.
+            byte_count:
+                The number of bytes to read from <#this/> I/O resource.
+    */
+    CMP_CONDITIONAL_INLINE
+    std::size_t
+    read (
+        std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+    /**
+        Description:
+            Writes <#parameter>byte_count</#parameter> bytes from the
+            <#parameter>data</#parameter> array to <#this/> I/O resource.
+            If the buffer still has data that was read in advance, the
+            bytes are written directly to the resource.
+
+        Parameters:
+            data:
+                The array of bytes that will be
+                written to <#this/> I/O resource.
+            byte_count:
+                The number of bytes to write to <#this/> I/O resource.
+    */
+    CMP_CONDITIONAL_INLINE
+    std::size_t
+    write (
+        const std::byte* data,
+        std::size_t byte_count
+    )
+    override;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/io_resource.cpp b/api/src/cmp/io/io_resource.cpp
index 8253a84..c388178 100644
--- a/api/src/cmp/io/io_resource.cpp
+++ b/api/src/cmp/io/io_resource.cpp
@@ -16,4 +16,29 @@ io_resource::io_resource (
 {
 } // function -----------------------------------------------------------------
 
+// Core -----------------------------------------------------------------------
+
+std::size_t
+io_resource::read (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    this->flush();
+    return input_resource::read(data, byte_count);
+} // function -----------------------------------------------------------------
+
+std::size_t
+io_resource::write (
+    const std::byte* data,
+    std::size_t byte_count
+) {
+    if (!m_buffer.is_read_dirty()) {
+        if (m_buffer.get_position() < m_buffer.get_size()) {
+            return write_raw(data, byte_count);
+        }
+        m_buffer.set_read_dirty(true);
+    }
+    return output_resource::write(data, byte_count);
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From eb27a947a877f3cbe8b533f5033c6c8b4e728db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:00 +0000
Subject: [PATCH 32/37] fix: go the other way when an iterator is moved by a
 negative offset

---
 api/include/cmp/unicode/by_code_point.hpp | 27 ++++------
 api/src/cmp/unicode/by_code_point.cpp     | 66 +++++++++++------------
 2 files changed, 42 insertions(+), 51 deletions(-)

diff --git a/api/include/cmp/unicode/by_code_point.hpp b/api/include/cmp/unicode/by_code_point.hpp
index 56b1fd9..ac4104a 100644
--- a/api/include/cmp/unicode/by_code_point.hpp
+++ b/api/include/cmp/unicode/by_code_point.hpp
@@ -505,8 +505,7 @@ public:
         const const_iterator&
         operator -= (
             difference_type offset
-        )
-        noexcept;
+        );
 
         // Friends ------------------------------------------------------------
 
@@ -535,8 +534,7 @@ public:
         operator - (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -545,8 +543,7 @@ public:
         operator - (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -923,8 +920,7 @@ public:
         const const_iterator&
         operator -= (
             difference_type offset
-        )
-        noexcept;
+        );
 
         // Friends ------------------------------------------------------------
 
@@ -953,8 +949,7 @@ public:
         operator - (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -963,8 +958,7 @@ public:
         operator - (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -1683,8 +1677,7 @@ public:
         const const_iterator&
         operator -= (
             difference_type offset
-        )
-        noexcept;
+        );
 
         // Friends ------------------------------------------------------------
 
@@ -1713,8 +1706,7 @@ public:
         operator - (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -1723,8 +1715,7 @@ public:
         operator - (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index bca53da..e725968 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -366,9 +366,7 @@ noexcept
 const by_code_point<char8_t>::const_iterator&
 by_code_point<char8_t>::const_iterator::operator -= (
     difference_type offset
-)
-noexcept
-{
+) {
     retreat(offset);
     return *this;
 } // function -----------------------------------------------------------------
@@ -405,9 +403,7 @@ by_code_point<char8_t>::const_iterator
 operator - (
     const by_code_point<char8_t>::const_iterator& iterator,
     by_code_point<char8_t>::const_iterator::difference_type offset
-)
-noexcept
-{
+) {
     by_code_point<char8_t>::const_iterator result_iterator{
         iterator.m_begin_iterator,
         iterator.m_current_iterator,
@@ -421,9 +417,7 @@ by_code_point<char8_t>::const_iterator
 operator - (
     by_code_point<char8_t>::const_iterator::difference_type offset,
     const by_code_point<char8_t>::const_iterator& iterator
-)
-noexcept
-{
+) {
     by_code_point<char8_t>::const_iterator result_iterator{
         iterator.m_begin_iterator,
         iterator.m_current_iterator,
@@ -547,9 +541,12 @@ void
 by_code_point<char8_t>::const_iterator::advance (
     difference_type offset
 ) {
-    while (offset-- > 0) {
+    for (; offset > 0; --offset) {
         advance();
     }
+    for (; offset < 0; ++offset) {
+        retreat();
+    }
 } // function -----------------------------------------------------------------
 
 void
@@ -571,9 +568,12 @@ void
 by_code_point<char8_t>::const_iterator::retreat (
     difference_type offset
 ) {
-    while (offset-- > 0) {
+    for (; offset > 0; --offset) {
         retreat();
     }
+    for (; offset < 0; ++offset) {
+        advance();
+    }
 } // function -----------------------------------------------------------------
 
 // ----------------------------------------------- cmp::by_code_point<char8_t>
@@ -772,9 +772,7 @@ noexcept
 const by_code_point<char16_t>::const_iterator&
 by_code_point<char16_t>::const_iterator::operator -= (
     difference_type offset
-)
-noexcept
-{
+) {
     retreat(offset);
     return *this;
 } // function -----------------------------------------------------------------
@@ -811,9 +809,7 @@ by_code_point<char16_t>::const_iterator
 operator - (
     const by_code_point<char16_t>::const_iterator& iterator,
     by_code_point<char16_t>::const_iterator::difference_type offset
-)
-noexcept
-{
+) {
     by_code_point<char16_t>::const_iterator result_iterator{
         iterator.m_begin_iterator,
         iterator.m_current_iterator,
@@ -827,9 +823,7 @@ by_code_point<char16_t>::const_iterator
 operator - (
     by_code_point<char16_t>::const_iterator::difference_type offset,
     const by_code_point<char16_t>::const_iterator& iterator
-)
-noexcept
-{
+) {
     by_code_point<char16_t>::const_iterator result_iterator{
         iterator.m_begin_iterator,
         iterator.m_current_iterator,
@@ -932,9 +926,12 @@ void
 by_code_point<char16_t>::const_iterator::advance (
     difference_type offset
 ) {
-    while (offset-- > 0) {
+    for (; offset > 0; --offset) {
         advance();
     }
+    for (; offset < 0; ++offset) {
+        retreat();
+    }
 } // function -----------------------------------------------------------------
 
 void
@@ -953,9 +950,12 @@ void
 by_code_point<char16_t>::const_iterator::retreat (
     difference_type offset
 ) {
-    while (offset-- > 0) {
+    for (; offset > 0; --offset) {
         retreat();
     }
+    for (; offset < 0; ++offset) {
+        advance();
+    }
 } // function -----------------------------------------------------------------
 
 // ---------------------------------------------- cmp::by_code_point<char16_t>
@@ -1376,9 +1376,7 @@ noexcept
 const by_code_point<wchar_t>::const_iterator&
 by_code_point<wchar_t>::const_iterator::operator -= (
     difference_type offset
-)
-noexcept
-{
+) {
     retreat(offset);
     return *this;
 } // function -----------------------------------------------------------------
@@ -1413,9 +1411,7 @@ by_code_point<wchar_t>::const_iterator
 operator - (
     const by_code_point<wchar_t>::const_iterator& iterator,
     by_code_point<wchar_t>::const_iterator::difference_type offset
-)
-noexcept
-{
+) {
     by_code_point<wchar_t>::const_iterator result_iterator{
         iterator.m_current_iterator,
         iterator.m_end_iterator
@@ -1428,9 +1424,7 @@ by_code_point<wchar_t>::const_iterator
 operator - (
     by_code_point<wchar_t>::const_iterator::difference_type offset,
     const by_code_point<wchar_t>::const_iterator& iterator
-)
-noexcept
-{
+) {
     by_code_point<wchar_t>::const_iterator result_iterator{
         iterator.m_current_iterator,
         iterator.m_end_iterator
@@ -1537,9 +1531,12 @@ by_code_point<wchar_t>::const_iterator::advance (
     difference_type offset
 ) {
     if constexpr (sizeof (wchar_t) == 2) {
-        while (offset-- > 0) {
+        for (; offset > 0; --offset) {
             advance();
         }
+        for (; offset < 0; ++offset) {
+            retreat();
+        }
     } else {
         m_current_iterator += offset;
     }
@@ -1563,9 +1560,12 @@ by_code_point<wchar_t>::const_iterator::retreat (
     difference_type offset
 ) {
     if constexpr (sizeof (wchar_t) == 2) {
-        while (offset-- > 0) {
+        for (; offset > 0; --offset) {
             retreat();
         }
+        for (; offset < 0; ++offset) {
+            advance();
+        }
     } else {
         m_current_iterator -= offset;
     }
-- 
2.43.0


From b869007d0275bdf05f6e86523fcb6031fcf59dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:51 +0000
Subject: [PATCH 33/37] fix: decide the end of a file by the open file, not by
 its path

---
 .../cmp/io/impl/unix_like/unix_like_file.hpp       |  6 ++++++
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp   | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index a1a3d46..cb0e61e 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -6,6 +6,7 @@
 
 #include <cerrno>
 #include <fcntl.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <utility>
 
@@ -71,6 +72,11 @@ public:
     is_open ()
     const noexcept override;
 
+    CMP_CONDITIONAL_INLINE
+    bool
+    is_at_end ()
+    const noexcept override;
+
     CMP_CONDITIONAL_INLINE
     std::int64_t
     get_position ()
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 1da8391..fc8089c 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -74,6 +74,20 @@ const noexcept
     return m_file_descriptor != -1;
 } // function -----------------------------------------------------------------
 
+bool
+file::is_at_end ()
+const noexcept
+{
+    /*
+        The path may no longer lead to the file that was opened, so it's
+        the open file itself that we ask for its size.
+    */
+    struct stat status;
+    return ::fstat(m_file_descriptor, &status) == -1
+        || !S_ISREG(status.st_mode)
+        || get_position() >= status.st_size;
+} // function -----------------------------------------------------------------
+
 std::int64_t
 file::get_position ()
 const noexcept
-- 
2.43.0


From 6475c0971225ffff49abda01a3c8e713838bda83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:04 +0000
Subject: [PATCH 34/37] fix: initialize the standard streams before the objects
 that use them

---
 api/include/cmp/core/compiler.hpp                | 14 ++++++++++++++
 api/src/cmp/io/impl/unix_like/unix_like_uin.cpp  |  1 +
 api/src/cmp/io/impl/unix_like/unix_like_uout.cpp |  2 ++
 api/src/cmp/io/uio.cpp                           |  6 +++---
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/api/include/cmp/core/compiler.hpp b/api/include/cmp/core/compiler.hpp
index 7fee889..a38aa41 100644
--- a/api/include/cmp/core/compiler.hpp
+++ b/api/include/cmp/core/compiler.hpp
@@ -46,4 +46,18 @@
 
 #endif
 
+/*
+    Global objects that others may use while they're being initialized or
+    destroyed need to be initialized before those, whatever order their
+    object files are linked in.
+*/
+#if defined(__has_attribute)
+#   if __has_attribute(init_priority)
+#       define CMP_INITIALIZE_EARLY __attribute__((init_priority(101)))
+#   endif
+#endif
+#if !defined(CMP_INITIALIZE_EARLY)
+#   define CMP_INITIALIZE_EARLY
+#endif
+
 #endif // CMP_CORE_COMPILER_HPP_INCLUDED
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
index 234a64e..d064de1 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
@@ -57,6 +57,7 @@ noexcept
 
 #if CMP_CONFIG_HEADER_ONLY == false
 
+CMP_INITIALIZE_EARLY
 stdin_resource uin_resource{CMP_CONFIG_DEFAULT_STDIN_BUFFER_CAPACITY};
 
 #endif
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
index 0b8c706..1f49239 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
@@ -58,11 +58,13 @@ stdout_resource::write_raw (
 
 #if CMP_CONFIG_HEADER_ONLY == false
 
+CMP_INITIALIZE_EARLY
 stdout_resource uout_resource{
     STDOUT_FILENO,
     CMP_CONFIG_DEFAULT_STDOUT_BUFFER_CAPACITY
 };
 
+CMP_INITIALIZE_EARLY
 stdout_resource uerr_resource{
     STDERR_FILENO,
     CMP_CONFIG_DEFAULT_STDERR_BUFFER_CAPACITY
diff --git a/api/src/cmp/io/uio.cpp b/api/src/cmp/io/uio.cpp
index c378bea..168ddb5 100644
--- a/api/src/cmp/io/uio.cpp
+++ b/api/src/cmp/io/uio.cpp
@@ -5,8 +5,8 @@
 
 namespace cmp {
 
-stdin_stream uin{uin_resource};
-stdout_stream uout{uout_resource};
-stdout_stream uerr{uerr_resource};
+CMP_INITIALIZE_EARLY stdin_stream uin{uin_resource};
+CMP_INITIALIZE_EARLY stdout_stream uout{uout_resource};
+CMP_INITIALIZE_EARLY stdout_stream uerr{uerr_resource};
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 1bf2ca6089cdfe9e3261025a608fe3209f876bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:54 +0000
Subject: [PATCH 35/37] fix: let a default-constructed range by code point be
 empty

The iterators of a default-constructed by_code_point were left
uninitialized, so iterating over it read arbitrary memory.
---
 api/include/cmp/unicode/by_code_point.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/api/include/cmp/unicode/by_code_point.hpp b/api/include/cmp/unicode/by_code_point.hpp
index ac4104a..31de7eb 100644
--- a/api/include/cmp/unicode/by_code_point.hpp
+++ b/api/include/cmp/unicode/by_code_point.hpp
@@ -358,8 +358,8 @@ public:
 private:
     // Private Data -----------------------------------------------------------
 
-    std::string_view::const_iterator m_begin_iterator;
-    std::string_view::const_iterator m_end_iterator;
+    std::string_view::const_iterator m_begin_iterator{};
+    std::string_view::const_iterator m_end_iterator{};
 }; // class -------------------------------------------------------------------
 
 template <>
@@ -772,8 +772,8 @@ public:
 private:
     // Private Data -----------------------------------------------------------
 
-    std::u8string_view::const_iterator m_begin_iterator;
-    std::u8string_view::const_iterator m_end_iterator;
+    std::u8string_view::const_iterator m_begin_iterator{};
+    std::u8string_view::const_iterator m_end_iterator{};
 }; // class -------------------------------------------------------------------
 
 template <>
@@ -1187,8 +1187,8 @@ public:
 private:
     // Private Data -----------------------------------------------------------
 
-    std::u16string_view::const_iterator m_begin_iterator;
-    std::u16string_view::const_iterator m_end_iterator;
+    std::u16string_view::const_iterator m_begin_iterator{};
+    std::u16string_view::const_iterator m_end_iterator{};
 }; // class -------------------------------------------------------------------
 
 template <>
@@ -1530,8 +1530,8 @@ public:
 private:
     // Private Data -----------------------------------------------------------
 
-    std::u32string_view::const_iterator m_begin_iterator;
-    std::u32string_view::const_iterator m_end_iterator;
+    std::u32string_view::const_iterator m_begin_iterator{};
+    std::u32string_view::const_iterator m_end_iterator{};
 }; // class -------------------------------------------------------------------
 
 template <>
@@ -1943,8 +1943,8 @@ public:
 private:
     // Private Data -----------------------------------------------------------
 
-    std::wstring_view::const_iterator m_begin_iterator;
-    std::wstring_view::const_iterator m_end_iterator;
+    std::wstring_view::const_iterator m_begin_iterator{};
+    std::wstring_view::const_iterator m_end_iterator{};
 }; // class -------------------------------------------------------------------
 
 by_code_point(std::string_view) -> by_code_point<char>;
-- 
2.43.0


From 008a1562cc8dea36b83ffa3fd18328aae0c7eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:40 +0000
Subject: [PATCH 36/37] fix: do not read before the beginning of malformed wide
 text when going backwards

---
 api/include/cmp/unicode/by_code_point.hpp |  2 ++
 api/src/cmp/unicode/by_code_point.cpp     | 25 +++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/api/include/cmp/unicode/by_code_point.hpp b/api/include/cmp/unicode/by_code_point.hpp
index 31de7eb..2794b0f 100644
--- a/api/include/cmp/unicode/by_code_point.hpp
+++ b/api/include/cmp/unicode/by_code_point.hpp
@@ -1599,6 +1599,7 @@ public:
 
         CMP_CONDITIONAL_INLINE
         const_iterator (
+            std::wstring_view::const_iterator initial_begin_iterator,
             std::wstring_view::const_iterator initial_current_iterator,
             std::wstring_view::const_iterator initial_end_iterator
         )
@@ -1740,6 +1741,7 @@ public:
     private:
         // Private Data -------------------------------------------------------
 
+        std::wstring_view::const_iterator m_begin_iterator;
         std::wstring_view::const_iterator m_current_iterator;
         std::wstring_view::const_iterator m_end_iterator;
 
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index e725968..029fbc3 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -1309,11 +1309,13 @@ const
 // Constructors and Destructor ------------------------------------------------
 
 by_code_point<wchar_t>::const_iterator::const_iterator (
+    std::wstring_view::const_iterator initial_begin_iterator,
     std::wstring_view::const_iterator initial_current_iterator,
     std::wstring_view::const_iterator initial_end_iterator
 )
 noexcept
-    : m_current_iterator{initial_current_iterator}
+    : m_begin_iterator{initial_begin_iterator}
+    , m_current_iterator{initial_current_iterator}
     , m_end_iterator{initial_end_iterator}
 {
 } // function -----------------------------------------------------------------
@@ -1387,6 +1389,7 @@ operator + (
     by_code_point<wchar_t>::const_iterator::difference_type offset
 ) {
     by_code_point<wchar_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -1400,6 +1403,7 @@ operator + (
     const by_code_point<wchar_t>::const_iterator& iterator
 ) {
     by_code_point<wchar_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -1413,6 +1417,7 @@ operator - (
     by_code_point<wchar_t>::const_iterator::difference_type offset
 ) {
     by_code_point<wchar_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -1426,6 +1431,7 @@ operator - (
     const by_code_point<wchar_t>::const_iterator& iterator
 ) {
     by_code_point<wchar_t>::const_iterator result_iterator{
+        iterator.m_begin_iterator,
         iterator.m_current_iterator,
         iterator.m_end_iterator
     };
@@ -1547,7 +1553,10 @@ by_code_point<wchar_t>::const_iterator::retreat ()
 {
     if constexpr (sizeof (wchar_t) == 2) {
         char16_t code_unit{static_cast<char16_t>(*(--m_current_iterator))};
-        if (is_trailing_surrogate(code_unit)) {
+        if (
+            is_trailing_surrogate(code_unit)
+                && m_current_iterator != m_begin_iterator
+        ) {
             --m_current_iterator;
         }
     } else {
@@ -1604,14 +1613,22 @@ by_code_point<wchar_t>::const_iterator
 by_code_point<wchar_t>::cbegin ()
 const noexcept
 {
-    return const_iterator{m_begin_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_begin_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<wchar_t>::const_iterator
 by_code_point<wchar_t>::cend ()
 const noexcept
 {
-    return const_iterator{m_end_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_end_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<wchar_t>::const_reverse_iterator
-- 
2.43.0


From e27af7a1276996f3d431f590fe41c780b3517536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:47 +0000
Subject: [PATCH 37/37] fix: format and parse integers of more than 64 bits
 exactly

---
 api/include/cmp/unicode/parsers.hpp |  8 +++---
 api/src/cmp/unicode/formatters.ipp  |  5 +++-
 api/src/cmp/unicode/parsers.cpp     | 28 -------------------
 api/src/cmp/unicode/parsers.ipp     | 42 ++++++++++++++++++++++++++---
 4 files changed, 47 insertions(+), 36 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index e365070..243c8b0 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -108,13 +108,15 @@ private:
     void
     report_out_of_range ();
 
-    CMP_CONDITIONAL_INLINE
+    template <
+        std::unsigned_integral Magnitude
+    >
     static
     void
     prepend_digit (
-        std::uintmax_t& power,
+        Magnitude& power,
         unsigned int radix,
-        std::uintmax_t& magnitude,
+        Magnitude& magnitude,
         int current_digit,
         unsigned int& digits_counted
     );
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index 6299607..9e38829 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -38,7 +38,10 @@ number_formatter::format_integer (
         We convert the input to its magnitude in an unsigned type because
         the smallest value of a signed type has no positive counterpart.
     */
-    std::uintmax_t magnitude{static_cast<std::uintmax_t>(input)};
+    using magnitude_type = std::make_unsigned_t<
+        std::common_type_t<Input, std::uintmax_t>
+    >;
+    auto magnitude{static_cast<magnitude_type>(input)};
     if (input < 0) {
         magnitude = 0 - magnitude;
     }
diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index 2907543..870d5bd 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -50,34 +50,6 @@ number_parser::report_out_of_range ()
     };
 } // function -----------------------------------------------------------------
 
-void
-number_parser::prepend_digit (
-    std::uintmax_t& power,
-    unsigned int radix,
-    std::uintmax_t& magnitude,
-    int current_digit,
-    unsigned int& digits_counted
-) {
-    constexpr auto maximum{std::numeric_limits<std::uintmax_t>::max()};
-
-    /*
-        A power of zero means that the next place is worth more than the
-        widest unsigned type can hold, so only a zero may appear there.
-    */
-    power = power <= maximum / radix ? power * radix : 0;
-    if (current_digit != 0) {
-        if (
-            power == 0
-                || static_cast<std::uintmax_t>(current_digit)
-                    > (maximum - magnitude) / power
-        ) {
-            report_out_of_range();
-        }
-        magnitude += current_digit * power;
-    }
-    ++digits_counted;
-} // function -----------------------------------------------------------------
-
 int
 number_parser::get_next_digit (
     char32_t character,
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 398eeb6..d82d43f 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -41,13 +41,16 @@ number_parser::parse_integer (
         We accumulate the magnitude in the widest unsigned type, and
         only check whether it fits in the output type at the end.
     */
-    std::uintmax_t magnitude{static_cast<std::uintmax_t>(current_digit)};
+    using magnitude_type = std::make_unsigned_t<
+        std::common_type_t<Output, std::uintmax_t>
+    >;
+    auto magnitude{static_cast<magnitude_type>(current_digit)};
 
     ++bcp_iterator;
 
     bool sign_found{false};
     bool negate{false};
-    std::uintmax_t power{1};
+    magnitude_type power{1};
     unsigned int digits_counted{1};
     char32_t current_character;
 
@@ -101,8 +104,8 @@ number_parser::parse_integer (
     if (digits_counted == 0) {
         report_non_digit_character();
     }
-    std::uintmax_t limit{
-        static_cast<std::uintmax_t>(std::numeric_limits<Output>::max())
+    auto limit{
+        static_cast<magnitude_type>(std::numeric_limits<Output>::max())
     };
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
@@ -239,6 +242,37 @@ number_parser::parse_floating_point (
 
 // Private Functions ----------------------------------------------------------
 
+template <
+    std::unsigned_integral Magnitude
+>
+void
+number_parser::prepend_digit (
+    Magnitude& power,
+    unsigned int radix,
+    Magnitude& magnitude,
+    int current_digit,
+    unsigned int& digits_counted
+) {
+    constexpr auto maximum{std::numeric_limits<Magnitude>::max()};
+
+    /*
+        A power of zero means that the next place is worth more than the
+        widest unsigned type can hold, so only a zero may appear there.
+    */
+    power = power <= maximum / radix ? power * radix : 0;
+    if (current_digit != 0) {
+        if (
+            power == 0
+                || static_cast<Magnitude>(current_digit)
+                    > (maximum - magnitude) / power
+        ) {
+            report_out_of_range();
+        }
+        magnitude += current_digit * power;
+    }
+    ++digits_counted;
+} // function -----------------------------------------------------------------
+
 template <
     std::floating_point Output
 >
-- 
2.43.0

