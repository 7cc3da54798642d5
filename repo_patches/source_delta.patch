From fe8f9c8ff610971526f2b753d94968a0ebd37dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 01/35] fix: reject a number sign that is not followed by a
 digit

scan_integer() asserted (Debug) or read garbage (Release) for texts such as
"-" or "+a".
---
 include/configor/json.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e41aaa0..b81652f 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -502,6 +502,10 @@ public:
             // zero
             return token_type::value_integer;
         }
+
+        if (!is_digit(current_))
+            fail("invalid number, got", current_);
+
         return scan_integer();
     }
 
-- 
2.43.0


From 559ab1a6cc5a520f56f4d1c6703b04f89074a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 02/35] fix: reject an exponent sign that is not followed by a
 digit

---
 include/configor/json.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index b81652f..ec516bf 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -587,6 +587,9 @@ public:
             read_next();
         }
 
+        if (!is_digit(current_))
+            fail("invalid exponent number, got", current_);
+
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-- 
2.43.0


From f9b2753b4691b3403822b93e6d2595f04e7088db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 03/35] fix: reject an object member without ':' and value

{"a"} was parsed as {}.
---
 include/configor/details/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 74555fa..9b11ca4 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -182,7 +182,7 @@ protected:
 
                 token = scan();
                 if (token != token_type::name_separator)
-                    break;
+                    fail(token, token_type::name_separator);
 
                 _ValTy object;
                 do_parse(object, token);
-- 
2.43.0


From 87275bc01f4c3a7b9bf4639f0b30898f448407c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 04/35] fix: end a comment at the end of a NUL-terminated input

An input adapter signals its end with NUL, so a comment at the end of the input
was scanned for ever.
---
 include/configor/json.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index ec516bf..48808cb 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -288,8 +288,9 @@ public:
                     break;
                 }
 
-                if (this->is_.eof())
+                if (current_ == '\0')
                 {
+                    // end of input
                     break;
                 }
             }
@@ -309,7 +310,7 @@ public:
                     }
                 }
 
-                if (this->is_.eof())
+                if (current_ == '\0')
                 {
                     fail("unexpected eof while reading comment");
                 }
-- 
2.43.0


From 192ecdd963fb8fdf500adf9f5e3b846e26db098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 05/35] fix: recognise the end of a comment that ends with
 several '*'

---
 include/configor/json.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 48808cb..15b3a37 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -298,9 +298,10 @@ public:
         else if (current_ == '*')
         {
             // multiple line comment
+            read_next();
             while (true)
             {
-                if (read_next() == '*')
+                if (current_ == '*')
                 {
                     if (read_next() == '/')
                     {
@@ -308,12 +309,15 @@ public:
                         read_next();
                         break;
                     }
+                    // may be another '*'
+                    continue;
                 }
 
                 if (current_ == '\0')
                 {
                     fail("unexpected eof while reading comment");
                 }
+                read_next();
             }
             skip_spaces();
         }
-- 
2.43.0


From e7a870b7f09a3072605cbf7754051a5863cc1f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 06/35] fix: compare whole code points when scanning literals
 and digits

Code points were truncated to the source character type, so that U+0130 was
read as the digit '0' and U+0172 as the letter 'r'.
---
 include/configor/json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 15b3a37..bc00281 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -331,7 +331,7 @@ public:
     {
         for (const auto ch : text)
         {
-            if (ch != std::char_traits<source_char_type>::to_char_type(current_))
+            if (static_cast<uint32_t>(ch) != current_)
             {
                 detail::fast_ostringstream ss;
                 ss << "unexpected character '" << static_cast<char>(current_) << "'";
@@ -636,9 +636,9 @@ public:
         return code;
     }
 
-    inline bool is_digit(source_char_type ch) const
+    inline bool is_digit(uint32_t codepoint) const
     {
-        return source_char_type('0') <= ch && ch <= source_char_type('9');
+        return '0' <= codepoint && codepoint <= '9';
     }
 
     inline void fail(const std::string& msg)
-- 
2.43.0


From e96b019f10b4fcd847344c5b33692409b83769af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 07/35] fix: do not recurse for every comment

A text with many consecutive comments overflowed the stack.
---
 include/configor/json.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index bc00281..3cf32e5 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -262,12 +262,14 @@ public:
 
     void skip_spaces()
     {
-        while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
-            read_next();
-
-        // skip comments
-        if (current_ == '/')
+        while (true)
         {
+            while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
+                read_next();
+
+            // skip comments
+            if (current_ != '/')
+                break;
             skip_comments();
         }
     }
@@ -284,7 +286,6 @@ public:
                 if (current_ == '\n' || current_ == '\r')
                 {
                     // end of comment
-                    skip_spaces();
                     break;
                 }
 
@@ -319,7 +320,6 @@ public:
                 }
                 read_next();
             }
-            skip_spaces();
         }
         else
         {
-- 
2.43.0


From 411c593562d185ba55277e98ca4ef3f4e17a00a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 08/35] fix: reject integer literals that do not fit the
 integer type

Out of range literals silently wrapped around (signed overflow), the smallest
integer could only be read by overflowing, and a float literal with a long
integral part was read as a different number.
---
 include/configor/json.hpp | 47 ++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 3cf32e5..42d8cd5 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -24,6 +24,8 @@
 #include <algorithm>  // std::for_each
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
+#include <limits>     // std::numeric_limits
+#include <type_traits>  // std::make_unsigned
 
 namespace configor
 {
@@ -143,6 +145,7 @@ public:
     explicit json_parser(std::basic_istream<source_char_type>& is)
         : basic_parser<value_type, source_char_type>(is)
         , is_negative_(false)
+        , is_overflow_(false)
         , current_(0)
         , number_integer_(0)
         , number_float_(0)
@@ -163,7 +166,9 @@ public:
 
     virtual void get_integer(typename value_type::integer_type& out) override
     {
-        out = is_negative_ ? -number_integer_ : number_integer_;
+        if (is_overflow_)
+            fail("integer number out of range");
+        out = static_cast<typename value_type::integer_type>(is_negative_ ? 0 - number_integer_ : number_integer_);
     }
 
     virtual void get_float(typename value_type::float_type& out) override
@@ -487,6 +492,7 @@ public:
     token_type scan_number()
     {
         is_negative_    = false;
+        is_overflow_    = false;
         number_integer_ = 0;
 
         if (current_ == '-' || current_ == '+')
@@ -517,20 +523,37 @@ public:
     token_type scan_integer()
     {
         using integer_type = typename value_type::integer_type;
+        using float_type   = typename value_type::float_type;
 
         CONFIGOR_ASSERT(is_digit(current_));
 
-        number_integer_ = static_cast<integer_type>(current_ - '0');
+        // the largest magnitude of an integer with this sign
+        const magnitude_type limit = is_negative_
+                                         ? 0 - static_cast<magnitude_type>((std::numeric_limits<integer_type>::min)())
+                                         : static_cast<magnitude_type>((std::numeric_limits<integer_type>::max)());
+
+        number_integer_ = static_cast<magnitude_type>(current_ - '0');
         while (true)
         {
             const auto ch = read_next();
             if (ch == '.' || ch == 'e' || ch == 'E')
                 return scan_float();
 
-            if (is_digit(ch))
-                number_integer_ = number_integer_ * 10 + static_cast<integer_type>(ch - '0');
-            else
+            if (!is_digit(ch))
                 break;
+
+            const auto digit = static_cast<magnitude_type>(ch - '0');
+            if (!is_overflow_ && (number_integer_ > limit / 10 || (number_integer_ == limit / 10 && digit > limit % 10)))
+            {
+                // too large for an integer, but may be the integral part of a float
+                is_overflow_  = true;
+                number_float_ = static_cast<float_type>(number_integer_);
+            }
+
+            if (is_overflow_)
+                number_float_ = number_float_ * 10 + static_cast<float_type>(digit);
+            else
+                number_integer_ = number_integer_ * 10 + digit;
         }
         return token_type::value_integer;
     }
@@ -539,7 +562,8 @@ public:
     {
         using float_type = typename value_type::float_type;
 
-        number_float_ = static_cast<float_type>(number_integer_);
+        if (!is_overflow_)
+            number_float_ = static_cast<float_type>(number_integer_);
 
         if (current_ == 'e' || current_ == 'E')
             return scan_exponent();
@@ -655,10 +679,13 @@ public:
     }
 
 private:
-    bool                              is_negative_;
-    uint32_t                          current_;
-    typename value_type::integer_type number_integer_;
-    typename value_type::float_type   number_float_;
+    using magnitude_type = typename std::make_unsigned<typename value_type::integer_type>::type;
+
+    bool                            is_negative_;
+    bool                            is_overflow_;
+    uint32_t                        current_;
+    magnitude_type                  number_integer_;
+    typename value_type::float_type number_float_;
 };
 
 //
-- 
2.43.0


From 08c63d32baa6296b124878fb9198126038a1d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 09/35] fix: reject float literals beyond the range of the
 float type

The exponent wrapped around at 2^32, 1e400 was read as infinity and 0.0e400 as
NaN.
---
 include/configor/json.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 42d8cd5..f71c892 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -22,6 +22,7 @@
 #include "configor.hpp"
 
 #include <algorithm>  // std::for_each
+#include <cmath>      // std::ceil, std::floor, std::isfinite
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
 #include <limits>     // std::numeric_limits
@@ -173,6 +174,8 @@ public:
 
     virtual void get_float(typename value_type::float_type& out) override
     {
+        if (!std::isfinite(number_float_))
+            fail("float number out of range");
         out = is_negative_ ? -number_float_ : number_float_;
     }
 
@@ -622,15 +625,17 @@ public:
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-            exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
+            // larger exponents exceed the range of all floats
+            if (exponent < 100000)
+                exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
         }
 
-        float_type power = 1;
-        for (; exponent; exponent >>= 1, base *= base)
-            if (exponent & 1)
-                power *= base;
-
-        number_float_ *= power;
+        if (number_float_ != 0)
+        {
+            for (; exponent; exponent >>= 1, base *= base)
+                if (exponent & 1)
+                    number_float_ *= base;
+        }
         return token_type::value_float;
     }
 
-- 
2.43.0


From b889e0a9f368419edbcca7c5cc67194b2f0a8a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 10/35] fix: reject an escaped trail surrogate without a lead
 surrogate

---
 include/configor/json.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index f71c892..697536f 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -463,6 +463,10 @@ public:
                         }
                         codepoint = encoding::unicode::decode_surrogates(lead_surrogate, trail_surrogate);
                     }
+                    else if (encoding::unicode::is_trail_surrogate(codepoint))
+                    {
+                        fail("trail surrogate must follow a lead surrogate, but got", codepoint);
+                    }
 
                     this->target_encoder_(oss, codepoint);
                     if (!oss.good())
-- 
2.43.0


From 63a820626484a9674f2d8465e2ce14e568a71db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 11/35] fix: pass a failure at the first character to the error
 handler

---
 include/configor/json.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 697536f..d4b4c4c 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -160,8 +160,8 @@ public:
 
     virtual void parse(value_type& c) override
     {
-        // read first char
-        read_next();
+        // let scan() read the first char, so that a failure is passed to the error handler
+        current_ = ' ';
         basic_parser<value_type, source_char_type>::parse(c);
     }
 
-- 
2.43.0


From 0f68f6d153c120b683ae32a372c32b955851d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 12/35] fix: always write four hex digits in a unicode escape

Control characters and escaped characters below U+1000 were dumped as invalid
escapes such as \\u01.
---
 include/configor/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index d4b4c4c..a2c4501 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -85,7 +85,7 @@ struct json_hex
     friend inline std::basic_ostream<_CharTy>& operator<<(std::basic_ostream<_CharTy>& os, const json_hex& i)
     {
         os << std::setfill(_CharTy('0')) << std::hex << std::uppercase;
-        os << '\\' << 'u' << std::setw(sizeof(i.i)) << i.i;
+        os << '\\' << 'u' << std::setw(4) << i.i;
         os << std::dec << std::nouppercase;
         return os;
     }
-- 
2.43.0


From d636351c9a7e2d509def8dea81a8726d1fed597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 13/35] fix: reject ill-formed UTF-8 when decoding

Bad continuation bytes, lone continuation bytes, overlong forms and encoded
surrogates were decoded to some other code point.
---
 include/configor/details/encoding.hpp | 37 ++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 7ca64fa..325edbc 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -54,6 +54,11 @@ inline bool is_trail_surrogate(const uint32_t codepoint)
     return constants::trail_surrogate_begin <= codepoint && codepoint <= constants::trail_surrogate_end;
 }
 
+inline bool is_surrogate(const uint32_t codepoint)
+{
+    return constants::lead_surrogate_begin <= codepoint && codepoint <= constants::trail_surrogate_end;
+}
+
 inline uint32_t decode_surrogates(uint32_t lead_surrogate, uint32_t trail_surrogate)
 {
     uint32_t codepoint = ((lead_surrogate - constants::lead_surrogate_begin) << constants::surrogate_bits);
@@ -169,6 +174,11 @@ public:
             0x00000000, 0x00003080, 0x000E2080, 0x03C82080, 0xFA082080, 0x82082080,
         };
 
+        // the smallest codepoint that needs so many extra bytes
+        static const std::array<std::uint32_t, 6> utf8_minimums = {
+            0x00000000, 0x00000080, 0x00000800, 0x00010000, 0x00200000, 0x04000000,
+        };
+
         // peek one byte and check eof
         const auto first_byte = static_cast<uint8_t>(is.peek());
 
@@ -177,30 +187,43 @@ public:
 
         codepoint = 0;
 
+        // a continuation byte cannot be the first one
+        bool well_formed = ((first_byte & 0xC0) != 0x80);
+
+        const auto read_extra_byte = [&]()
+        {
+            const auto byte = static_cast<uint8_t>(is.get());
+            if ((byte & 0xC0) != 0x80)
+                well_formed = false;
+            return static_cast<uint32_t>(byte);
+        };
+
         // read bytes
         const auto extra_bytes_to_read = utf8_extra_bytes[first_byte];
+        codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
         switch (extra_bytes_to_read)
         {
         case 5:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
             codepoint <<= 6;
+            codepoint += read_extra_byte();
         case 4:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
             codepoint <<= 6;
+            codepoint += read_extra_byte();
         case 3:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
             codepoint <<= 6;
+            codepoint += read_extra_byte();
         case 2:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
             codepoint <<= 6;
+            codepoint += read_extra_byte();
         case 1:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
             codepoint <<= 6;
+            codepoint += read_extra_byte();
         case 0:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
+            break;
         }
         codepoint -= utf8_offsets[extra_bytes_to_read];
-        if (codepoint > 0x10FFFF)
+        if (!well_formed || codepoint < utf8_minimums[extra_bytes_to_read] || codepoint > 0x10FFFF
+            || unicode::is_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From d6eae2a2f7369a862c32ce65ccc5c8174a50e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 14/35] fix: reject ill-formed UTF-16 when decoding

A lone trail surrogate was accepted and a code unit above 0xFFFF was truncated.
---
 include/configor/details/encoding.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 325edbc..e9a4b47 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -263,15 +263,21 @@ public:
 
     static bool decode(istream_type& is, uint32_t& codepoint)
     {
-        codepoint = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+        codepoint = static_cast<uint32_t>(is.get());
 
         if (is.eof())
             return false;
 
+        if (codepoint > 0xFFFF || unicode::is_trail_surrogate(codepoint))
+        {
+            is.setstate(std::ios_base::failbit);
+            return true;
+        }
+
         if (unicode::is_lead_surrogate(codepoint))
         {
             uint32_t lead_surrogate  = codepoint;
-            uint32_t trail_surrogate = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+            uint32_t trail_surrogate = static_cast<uint32_t>(is.get());
 
             if (unicode::is_trail_surrogate(trail_surrogate))
             {
-- 
2.43.0


From 04e68ceb184a094bedbe25be6b500aaaef8a880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 15/35] fix: reject surrogates when decoding UTF-32

---
 include/configor/details/encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index e9a4b47..b9d15cc 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -324,7 +324,7 @@ public:
         if (is.eof())
             return false;
 
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || unicode::is_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From e60d9842a76dd87a0ddcd0f397e2a7dc0e0ae618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 16/35] fix: refuse to encode surrogates

The encoders wrote ill-formed text for surrogate code points.
---
 include/configor/details/encoding.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index b9d15cc..c601eed 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -131,6 +131,10 @@ public:
             os.put(static_cast<char_type>(0xC0 | (codepoint >> 6)));
             os.put(static_cast<char_type>(0x80 | (codepoint & 0x3F)));
         }
+        else if (unicode::is_surrogate(codepoint))
+        {
+            os.setstate(std::ios_base::failbit);
+        }
         else if (codepoint <= 0xFFFF)
         {
             // 1110xxxx 10xxxxxx 10xxxxxx
@@ -244,7 +248,11 @@ public:
 
     static void encode(ostream_type& os, uint32_t codepoint)
     {
-        if (codepoint <= 0xFFFF)
+        if (unicode::is_surrogate(codepoint))
+        {
+            os.setstate(std::ios_base::failbit);
+        }
+        else if (codepoint <= 0xFFFF)
         {
             os.put(traits_type::to_char_type(static_cast<typename traits_type::int_type>(codepoint)));
         }
@@ -310,7 +318,7 @@ public:
 
     static void encode(ostream_type& os, uint32_t codepoint)
     {
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || unicode::is_surrogate(codepoint))
         {
             os.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From 6eee77b71a0a0e5021573916ea5c22ff6081518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 17/35] fix: dump floats so that they can be read back as
 floats

Integral floats beyond int64_t were dumped as an unrelated number, infinities
and NaN as garbage, and a float that was rounded to an integral number in the
chosen precision was dumped as an integer.
---
 include/configor/json.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index a2c4501..4ffc094 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -910,14 +910,37 @@ public:
 
     virtual void put_float(typename value_type::float_type f) override
     {
-        if (std::ceil(f) == std::floor(f))
+        if (!std::isfinite(f))
+        {
+            throw configor_serialization_error("cannot dump a float number that is not finite");
+        }
+
+        // the integral floats that fit int64_t
+        const auto int64_limit = static_cast<typename value_type::float_type>(9223372036854775808.0);
+        if (std::ceil(f) == std::floor(f) && -int64_limit <= f && f < int64_limit)
         {
             // integer
             this->os_ << static_cast<int64_t>(f) << ".0";
         }
         else
         {
-            this->os_ << f;
+            fast_basic_ostringstream<target_char_type> ss;
+            ss.imbue(this->os_.getloc());
+            ss.flags(this->os_.flags());
+            ss.precision(this->os_.precision());
+            ss << f;
+            if (!ss.good())
+            {
+                throw configor_serialization_error("cannot format a float number");
+            }
+
+            const auto& str = ss.str();
+            this->os_ << str;
+            if (str.find('.') == str.npos && str.find('e') == str.npos)
+            {
+                // rounded to an integral number, must remain a float
+                this->os_ << ".0";
+            }
         }
     }
 
-- 
2.43.0


From e0641753786a52efe1d0c2987c3bc7747056e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 18/35] fix: replace the content of a map when converting from
 a value

Old members were kept and even preferred to the new ones, unlike for all other
containers.
---
 include/configor/details/conversion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index e3bcba9..218b6db 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -449,6 +449,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
@@ -474,6 +475,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::unordered_map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
-- 
2.43.0


From d36768adf0a55bee577f3138a82dac02fa139bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:28 +0000
Subject: [PATCH 19/35] fix: count and keep the peeked character of an input
 adapter stream

A block read after a peek reported one character less than it had stored, and a
peeked NUL was dropped.
---
 include/configor/details/stream.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index a99761e..dba83b9 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -155,6 +155,7 @@ private:
     public:
         explicit streambuf(basic_iadapter<char_type>& adapter)
             : adapter_(adapter)
+            , has_last_char_(false)
             , last_char_(0)
         {
         }
@@ -162,35 +163,41 @@ private:
     protected:
         virtual int_type underflow() override
         {
-            if (last_char_ != 0)
+            if (has_last_char_)
                 return last_char_;
-            last_char_ = traits_type::to_char_type(adapter_.read());
+            last_char_     = traits_type::to_char_type(adapter_.read());
+            has_last_char_ = true;
             return last_char_;
         }
 
         virtual int_type uflow() override
         {
-            int_type c = underflow();
-            last_char_ = 0;
+            int_type c     = underflow();
+            has_last_char_ = false;
             return c;
         }
 
         virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
         {
-            if (last_char_ != 0)
+            if (num <= 0)
+                return 0;
+
+            auto size = static_cast<size_t>(num);
+            if (has_last_char_)
             {
                 // read last char
-                s[0]       = traits_type::to_char_type(last_char_);
-                last_char_ = 0;
+                s[0]           = traits_type::to_char_type(last_char_);
+                has_last_char_ = false;
                 ++s;
-                --num;
+                --size;
             }
-            adapter_.read(s, static_cast<size_t>(num));
+            adapter_.read(s, size);
             return num;
         }
 
     private:
         basic_iadapter<char_type>& adapter_;
+        bool                       has_last_char_;
         int_type                   last_char_;
     };
 
-- 
2.43.0


From 042bcdff1834cf301926c461021505c6a581597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 20/35] fix: keep a peeked NUL of a C file

The UTF-8 decoder peeks before it reads, so NUL bytes of a file were dropped and
a file was parsed unlike a string with the same content.
---
 include/configor/details/stream.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index dba83b9..7d5f3a7 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -354,6 +354,7 @@ public:
 
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
+        , has_last_char_(false)
         , last_char_(0)
     {
     }
@@ -361,16 +362,17 @@ public:
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
+        if (has_last_char_)
             return last_char_;
-        last_char_ = std::fgetc(file_);
+        last_char_     = std::fgetc(file_);
+        has_last_char_ = true;
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
-        int_type c = underflow();
-        last_char_ = 0;
+        int_type c     = underflow();
+        has_last_char_ = false;
         return c;
     }
 
@@ -383,6 +385,7 @@ protected:
 
 private:
     std::FILE* file_;
+    bool       has_last_char_;
     int_type   last_char_;
 };
 
@@ -397,6 +400,7 @@ public:
 
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
+        , has_last_char_(false)
         , last_char_(0)
     {
     }
@@ -404,16 +408,17 @@ public:
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
+        if (has_last_char_)
             return last_char_;
-        last_char_ = std::fgetwc(file_);
+        last_char_     = std::fgetwc(file_);
+        has_last_char_ = true;
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
-        int_type c = underflow();
-        last_char_ = 0;
+        int_type c     = underflow();
+        has_last_char_ = false;
         return c;
     }
 
@@ -426,6 +431,7 @@ protected:
 
 private:
     std::FILE* file_;
+    bool       has_last_char_;
     int_type   last_char_;
 };
 
-- 
2.43.0


From fd76d29310b06fa3dbee5ad79bafe5c74c14ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 21/35] fix: report a failing output stream when dumping

A dump to a sink that fails was silently truncated.
---
 include/configor/details/serializer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index 6eba96f..f87dba6 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -60,6 +60,9 @@ public:
         {
             do_dump(c);
             next(token_type::end_of_input);
+
+            if (!os_.good())
+                throw configor_serialization_error("writing to the output stream failed");
         }
         catch (...)
         {
-- 
2.43.0


From a7619ee7354b5f06e482f4116b8c1ae2f20efe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 22/35] fix: neither leak nor dangle when an allocation fails

construct() leaked its memory when the constructor of the data threw, reset()
left a value with the new type and released data, and the converting
constructor did not destroy a partly converted value.
---
 include/configor/details/value.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 97c9bbe..11ed6b2 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -156,8 +156,7 @@ public:
               typename std::enable_if<!is_value<_UTy>::value && detail::has_to_value<basic_value, _UTy>::value,
                                       int>::type = 0>
     basic_value(_CompatibleTy&& value)
-        : type_{ value_constant::null }
-        , data_{}
+        : basic_value(nullptr)
     {
         binder_type<_UTy>::to_value(*this, std::forward<_CompatibleTy>(value));
     }
@@ -1024,8 +1023,9 @@ public:
     static void reset(value_type& v, _Args&&... args)
     {
         destroy(v);
-        v.type(_Ty);
+        v.type(value_constant::null);
         construct<_Ty>(v, std::forward<_Args>(args)...);
+        v.type(_Ty);
     }
 
     template <value_constant::type _Ty, typename... _Args>
@@ -1103,7 +1103,15 @@ private:
         static allocator_type<_Ty> allocator;
 
         auto ptr = allocator_traits::allocate(allocator, 1);
-        allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        try
+        {
+            allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        }
+        catch (...)
+        {
+            allocator_traits::deallocate(allocator, ptr, 1);
+            throw;
+        }
         return ptr;
     }
 
-- 
2.43.0


From e2576bfed5eeafebb28e673e20fa91e7832217fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 23/35] fix: report a failed write of an escaped character of a
 string

The stream swallows an allocation failure, which was only noticed when another
character followed.
---
 include/configor/json.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 4ffc094..6cac33f 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -373,6 +373,10 @@ public:
             case '\"':
             {
                 // end of string
+                if (!oss.good())
+                {
+                    fail("encoding failed");
+                }
                 // skip last `\"`
                 read_next();
                 return;
-- 
2.43.0


From cb94a25d02b6ad753d807b4f75e4ded790a26204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 24/35] fix: report a read error of a C file

A read error was taken for the end of the file, so that a truncated document
could be parsed without an error.
---
 include/configor/details/stream.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 7d5f3a7..ac96a06 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -19,9 +19,11 @@
 // THE SOFTWARE.
 
 #pragma once
+#include "exception.hpp"
+
 #include <algorithm>    // std::none_of
 #include <cmath>        // std::ceil, std::floor
-#include <cstdio>       // std::FILE, std::fgetc, std::fgets, std::fgetwc, std::fgetws, std::snprintf
+#include <cstdio>       // std::FILE, std::ferror, std::fgetc, std::fgets, std::fgetwc, std::fgetws, std::snprintf
 #include <iomanip>      // std::fill, std::setw
 #include <ios>          // std::basic_ios, std::streamsize, std::hex, std::dec, std::uppercase, std::nouppercase
 #include <istream>      // std::basic_istream
@@ -364,7 +366,9 @@ protected:
     {
         if (has_last_char_)
             return last_char_;
-        last_char_     = std::fgetc(file_);
+        last_char_ = std::fgetc(file_);
+        if (traits_type::eq_int_type(last_char_, traits_type::eof()) && std::ferror(file_))
+            throw configor_exception("reading the file failed");
         has_last_char_ = true;
         return last_char_;
     }
@@ -410,7 +414,9 @@ protected:
     {
         if (has_last_char_)
             return last_char_;
-        last_char_     = std::fgetwc(file_);
+        last_char_ = std::fgetwc(file_);
+        if (traits_type::eq_int_type(last_char_, traits_type::eof()) && std::ferror(file_))
+            throw configor_exception("reading the file failed");
         has_last_char_ = true;
         return last_char_;
     }
-- 
2.43.0


From 5a6dad34380780f27859615f7b8d097f4a99d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 25/35] fix: keep precision and range of float literals while
 they are read

---
 include/configor/json.hpp | 40 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 6cac33f..e68eac9 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -174,9 +174,9 @@ public:
 
     virtual void get_float(typename value_type::float_type& out) override
     {
-        if (!std::isfinite(number_float_))
+        out = static_cast<typename value_type::float_type>(is_negative_ ? -number_float_ : number_float_);
+        if (!std::isfinite(out))
             fail("float number out of range");
-        out = is_negative_ ? -number_float_ : number_float_;
     }
 
     virtual void get_string(typename value_type::string_type& out) override
@@ -534,7 +534,6 @@ public:
     token_type scan_integer()
     {
         using integer_type = typename value_type::integer_type;
-        using float_type   = typename value_type::float_type;
 
         CONFIGOR_ASSERT(is_digit(current_));
 
@@ -558,11 +557,11 @@ public:
             {
                 // too large for an integer, but may be the integral part of a float
                 is_overflow_  = true;
-                number_float_ = static_cast<float_type>(number_integer_);
+                number_float_ = static_cast<magnitude_float>(number_integer_);
             }
 
             if (is_overflow_)
-                number_float_ = number_float_ * 10 + static_cast<float_type>(digit);
+                number_float_ = number_float_ * 10 + static_cast<magnitude_float>(digit);
             else
                 number_integer_ = number_integer_ * 10 + digit;
         }
@@ -571,10 +570,8 @@ public:
 
     token_type scan_float()
     {
-        using float_type = typename value_type::float_type;
-
         if (!is_overflow_)
-            number_float_ = static_cast<float_type>(number_integer_);
+            number_float_ = static_cast<magnitude_float>(number_integer_);
 
         if (current_ == 'e' || current_ == 'E')
             return scan_exponent();
@@ -584,8 +581,8 @@ public:
         if (!is_digit(read_next()))
             fail("invalid float number, got", current_);
 
-        float_type fraction = static_cast<float_type>(0.1);
-        number_float_ += static_cast<float_type>(static_cast<uint32_t>(current_ - '0')) * fraction;
+        magnitude_float fraction = static_cast<magnitude_float>(0.1L);
+        number_float_ += static_cast<magnitude_float>(static_cast<uint32_t>(current_ - '0')) * fraction;
 
         while (true)
         {
@@ -595,8 +592,8 @@ public:
 
             if (is_digit(ch))
             {
-                fraction *= static_cast<float_type>(0.1);
-                number_float_ += static_cast<float_type>(static_cast<uint32_t>(current_ - '0')) * fraction;
+                fraction *= static_cast<magnitude_float>(0.1L);
+                number_float_ += static_cast<magnitude_float>(static_cast<uint32_t>(current_ - '0')) * fraction;
             }
             else
                 break;
@@ -606,8 +603,6 @@ public:
 
     token_type scan_exponent()
     {
-        using float_type = typename value_type::float_type;
-
         CONFIGOR_ASSERT(current_ == 'e' || current_ == 'E');
 
         read_next();
@@ -616,14 +611,14 @@ public:
         if (!invalid)
             fail("invalid exponent number, got", current_);
 
-        float_type base = 10;
+        magnitude_float base = 10;
         if (current_ == '+')
         {
             read_next();
         }
         else if (current_ == '-')
         {
-            base = static_cast<float_type>(0.1);
+            base = static_cast<magnitude_float>(0.1L);
             read_next();
         }
 
@@ -694,11 +689,14 @@ public:
 private:
     using magnitude_type = typename std::make_unsigned<typename value_type::integer_type>::type;
 
-    bool                            is_negative_;
-    bool                            is_overflow_;
-    uint32_t                        current_;
-    magnitude_type                  number_integer_;
-    typename value_type::float_type number_float_;
+    // wide enough not to lose precision or range before the last digit is read
+    using magnitude_float = long double;
+
+    bool            is_negative_;
+    bool            is_overflow_;
+    uint32_t        current_;
+    magnitude_type  number_integer_;
+    magnitude_float number_float_;
 };
 
 //
-- 
2.43.0


From 3b286628386ddd9da7f19ea961325373553e3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 26/35] fix: supply high bytes of an input adapter as stream
 characters

---
 include/configor/details/stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index ac96a06..91b3cee 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -167,7 +167,10 @@ private:
         {
             if (has_last_char_)
                 return last_char_;
-            last_char_     = traits_type::to_char_type(adapter_.read());
+            const char_type ch = adapter_.read();
+            // an adapter may end its input with the character form of eof
+            last_char_     = traits_type::eq(ch, traits_type::to_char_type(traits_type::eof())) ? traits_type::eof()
+                                                                                                : traits_type::to_int_type(ch);
             has_last_char_ = true;
             return last_char_;
         }
-- 
2.43.0


From d7eb2977e9e3a00db0910ba0d81967c7d43eb633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 27/35] fix: get(T&) swallowed a failing allocation

The fields of a type bound with CONFIGOR_BIND are read with get(T&), whose
result is not looked at, so a conversion that ran out of memory was reported
as successful with fields left out.
---
 include/configor/details/value.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 11ed6b2..4ae36a9 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -25,6 +25,7 @@
 #include <cmath>        // std::fabs
 #include <limits>       // std::numeric_limits
 #include <memory>       // std::allocator_traits
+#include <new>          // std::bad_alloc
 #include <sstream>      // std::stringstream
 #include <type_traits>  // std::enable_if, std::is_same, std::is_integral, std::is_floating_point
 #include <utility>      // std::swap, std::forward, std::declval
@@ -661,6 +662,11 @@ public:
             do_get<_Ty>(value, detail::priority<3>{});
             return true;
         }
+        catch (const std::bad_alloc&)
+        {
+            // running out of memory says nothing about the type of this value
+            throw;
+        }
         catch (...)
         {
         }
-- 
2.43.0


From ea0651eb27176ff2d6b417b7b4887ad208d90cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 28/35] fix: block reads of strings, buffers and C files
 advance and count

The stream buffers that parse() puts on strings, C strings and C files did
not advance on a block read, took the text from its start or stopped at
line ends and reported a wrong count, so that an encoding of the user's
that reads its units in blocks never came to an end.
---
 include/configor/details/stream.hpp | 38 ++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 91b3cee..9f009ea 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -23,7 +23,7 @@
 
 #include <algorithm>    // std::none_of
 #include <cmath>        // std::ceil, std::floor
-#include <cstdio>       // std::FILE, std::ferror, std::fgetc, std::fgets, std::fgetwc, std::fgetws, std::snprintf
+#include <cstdio>       // std::FILE, std::ferror, std::fgetc, std::fgetwc, std::snprintf
 #include <iomanip>      // std::fill, std::setw
 #include <ios>          // std::basic_ios, std::streamsize, std::hex, std::dec, std::uppercase, std::nouppercase
 #include <istream>      // std::basic_istream
@@ -289,7 +289,10 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
+        if (index_ >= str_.size())
+            return 0;
         const auto copied = str_.copy(s, static_cast<size_t>(num), index_);
+        index_ += copied;
         return static_cast<std::streamsize>(copied);
     }
 
@@ -331,11 +334,12 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (index_ + static_cast<size_t>(num) >= size_)
-            num = static_cast<std::streamsize>(size_ - index_);
-        if (num == 0)
+        if (index_ >= size_)
             return 0;
-        traits_type::copy(s, buffer_, static_cast<size_t>(num));
+        if (static_cast<size_t>(num) > size_ - index_)
+            num = static_cast<std::streamsize>(size_ - index_);
+        traits_type::copy(s, buffer_ + index_, static_cast<size_t>(num));
+        index_ += static_cast<size_t>(num);
         return num;
     }
 
@@ -385,9 +389,15 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgets(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize copied = 0;
+        for (; copied < num; ++copied)
+        {
+            const int_type c = uflow();
+            if (traits_type::eq_int_type(c, traits_type::eof()))
+                break;
+            s[copied] = traits_type::to_char_type(c);
+        }
+        return copied;
     }
 
 private:
@@ -433,9 +443,15 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgetws(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize copied = 0;
+        for (; copied < num; ++copied)
+        {
+            const int_type c = uflow();
+            if (traits_type::eq_int_type(c, traits_type::eof()))
+                break;
+            s[copied] = traits_type::to_char_type(c);
+        }
+        return copied;
     }
 
 private:
-- 
2.43.0


From 9dd7c51ddcbf624e68104184c72d510860ca18d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 29/35] fix: operator[] with the largest index on an empty
 array reads out of bounds

---
 include/configor/details/value.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 4ae36a9..191ed4e 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -727,6 +727,10 @@ public:
 
         if (index >= data().vector->size())
         {
+            if (index >= data().vector->max_size())
+            {
+                throw std::length_error("operator[] index too large");
+            }
             data().vector->insert(data().vector->end(), index - data().vector->size() + 1, basic_value());
         }
         return (*data().vector)[index];
-- 
2.43.0


From 8e9843d2b7f1a72f9fb77895c30d6123822bf2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 30/35] fix: indentation is lost below a nesting depth of 65535

---
 include/configor/details/serializer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index f87dba6..5775048 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -319,7 +319,7 @@ private:
 
 private:
     uint8_t     step_;
-    uint16_t    depth_;
+    size_t      depth_;
     char_type   indent_char_;
     string_type indent_string_;
 };
-- 
2.43.0


From 01cce429fc76ec1fe23f0f4a3b7563a246d7f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 31/35] fix: reject negative integers where integers are
 unsigned

The first digit was not compared with the largest magnitude, so that -1
parsed as 18446744073709551615 into a value with uint64_t integers.
---
 include/configor/json.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e68eac9..8f3a7e4 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -543,6 +543,13 @@ public:
                                          : static_cast<magnitude_type>((std::numeric_limits<integer_type>::max)());
 
         number_integer_ = static_cast<magnitude_type>(current_ - '0');
+        if (number_integer_ > limit)
+        {
+            // a negative number where integers are unsigned
+            is_overflow_  = true;
+            number_float_ = static_cast<magnitude_float>(number_integer_);
+        }
+
         while (true)
         {
             const auto ch = read_next();
-- 
2.43.0


From 73d81f199076257b36d60c1634921e7472232e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 32/35] fix: dump integers of 8 bits as numbers

operator<< writes int8_t and uint8_t as characters.
---
 include/configor/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 8f3a7e4..aed0064 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -914,7 +914,8 @@ public:
 
     virtual void put_integer(typename value_type::integer_type i) override
     {
-        this->os_ << i;
+        // promoted, as integers of 8 bits would be written as characters
+        this->os_ << +i;
     }
 
     virtual void put_float(typename value_type::float_type f) override
-- 
2.43.0


From cb63e3c02fab9a49002f4ac2007a99529523d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 33/35] fix: encoding ignore takes characters above 0x7F for
 huge code points

json::dump with encoding::ignore and unicode escaping wrote "\uD7BF\uDFE9"
for the character 0xE9, which cannot be read back.
---
 include/configor/details/encoding.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index c601eed..0c81e28 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -59,6 +59,13 @@ inline bool is_surrogate(const uint32_t codepoint)
     return constants::lead_surrogate_begin <= codepoint && codepoint <= constants::trail_surrogate_end;
 }
 
+// the code unit of a character, which may be of a signed type
+template <typename _CharTy>
+inline uint32_t to_code_unit(typename std::char_traits<_CharTy>::int_type ch)
+{
+    return static_cast<uint32_t>(static_cast<typename std::make_unsigned<_CharTy>::type>(static_cast<_CharTy>(ch)));
+}
+
 inline uint32_t decode_surrogates(uint32_t lead_surrogate, uint32_t trail_surrogate)
 {
     uint32_t codepoint = ((lead_surrogate - constants::lead_surrogate_begin) << constants::surrogate_bits);
@@ -99,7 +106,7 @@ public:
 
     static bool decode(istream_type& is, uint32_t& codepoint)
     {
-        codepoint = static_cast<uint32_t>(static_cast<char_type>(is.get()));
+        codepoint = unicode::to_code_unit<char_type>(is.get());
         return !is.eof();
     }
 };
-- 
2.43.0


From e1e7a750b1f480b437b6a5ceb5d12c774b93abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:43 +0000
Subject: [PATCH 34/35] fix: UTF-8 in characters wider than a byte drops their
 upper bits

Decoding L"\x141" as UTF-8 gave 'A' instead of a failure.
---
 include/configor/details/encoding.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 0c81e28..18eb617 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -191,20 +191,22 @@ public:
         };
 
         // peek one byte and check eof
-        const auto first_byte = static_cast<uint8_t>(is.peek());
+        const auto first_unit = unicode::to_code_unit<char_type>(is.peek());
+        const auto first_byte = static_cast<uint8_t>(first_unit);
 
         if (is.eof())
             return false;
 
         codepoint = 0;
 
-        // a continuation byte cannot be the first one
-        bool well_formed = ((first_byte & 0xC0) != 0x80);
+        // a continuation byte cannot be the first one, nor can anything larger than a byte
+        bool well_formed = ((first_byte & 0xC0) != 0x80) && first_unit == first_byte;
 
         const auto read_extra_byte = [&]()
         {
-            const auto byte = static_cast<uint8_t>(is.get());
-            if ((byte & 0xC0) != 0x80)
+            const auto unit = unicode::to_code_unit<char_type>(is.get());
+            const auto byte = static_cast<uint8_t>(unit);
+            if ((byte & 0xC0) != 0x80 || unit != byte)
                 well_formed = false;
             return static_cast<uint32_t>(byte);
         };
-- 
2.43.0


From 40114e0eb117102d052aab4140274f9961f35ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:55 +0000
Subject: [PATCH 35/35] fix: simple escapes go through the target encoding

The eight simple escapes of a string were written with operator<<, past the
target encoding and through the widening of the stream's locale, which has
no facet for char16_t and char32_t: every value of such a character type
failed to parse a string with an escape (std::bad_cast).
---
 include/configor/json.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index aed0064..8e8c483 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -423,28 +423,28 @@ public:
                 switch (read_next())
                 {
                 case '\"':
-                    oss << '\"';
+                    this->target_encoder_(oss, '\"');
                     break;
                 case '\\':
-                    oss << '\\';
+                    this->target_encoder_(oss, '\\');
                     break;
                 case '/':
-                    oss << '/';
+                    this->target_encoder_(oss, '/');
                     break;
                 case 'b':
-                    oss << '\b';
+                    this->target_encoder_(oss, '\b');
                     break;
                 case 'f':
-                    oss << '\f';
+                    this->target_encoder_(oss, '\f');
                     break;
                 case 'n':
-                    oss << '\n';
+                    this->target_encoder_(oss, '\n');
                     break;
                 case 'r':
-                    oss << '\r';
+                    this->target_encoder_(oss, '\r');
                     break;
                 case 't':
-                    oss << '\t';
+                    this->target_encoder_(oss, '\t');
                     break;
 
                 case 'u':
@@ -485,6 +485,11 @@ public:
                     fail("invalid escaped character", current_);
                 }
                 }
+
+                if (!oss.good())
+                {
+                    fail("encoding failed with escaped character", current_);
+                }
                 break;
             }
 
-- 
2.43.0

