From f5372cf8a8bba07b09b71893b15409b625b046de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 01/46] fix: deserialize_array from a buffer did not compile
 (needs a const iterator)

---
 source/cpp/json-array.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 005acd2..a15479c 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -107,9 +107,9 @@ bool deserialize_array( T& container, const std::string &in, Parameters *params
 template<typename T, typename std::enable_if<is_container<T>::value, int>::type = 0>
 bool deserialize_array( T& container, const char *in, size_t len, Parameters *params = nullptr )
 {
-    auto begin = mem_iterator<char>(in, len);
-    auto end = mem_iterator<char>(in + len, 0);
-    iterator_istream<mem_iterator<char>> is(begin, end);
+    auto begin = mem_const_iterator<char>(in, len);
+    auto end = mem_const_iterator<char>(in + len, 0);
+    iterator_istream<mem_const_iterator<char>> is(begin, end);
     return deserialize_array(container, is, params);
 }
 
-- 
2.43.0


From b3c6d8fcc38034e2025f86cc5135a3576f8130e9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 02/46] fix: generated header uses std::numeric_limits without
 including <limits>

---
 source/cpp/protogen.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c330d97..f16cad0 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -28,6 +28,7 @@
 #include <iterator>
 #include <memory>
 #include <algorithm>
+#include <limits>
 #include <cmath>
 
 namespace protogen_X_Y_Z {
-- 
2.43.0


From df2e03858be35cdf683d0789f6badb0774206b7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 03/46] fix: control characters and U+0000-U+007F escapes did
 not survive JSON

Control characters other than \b \f \r \n \t were written raw, which is not
valid JSON, and \u0000 to \u007f were rejected when reading.
---
 source/cpp/json-string.hh | 7 ++++++-
 source/cpp/protogen.hh    | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 7d21daa..1b0095e 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -76,7 +76,12 @@ struct json<std::string, void>
                     case '\r': (*ctx.os) <<  "\\r"; break;
                     case '\n': (*ctx.os) <<  "\\n"; break;
                     case '\t': (*ctx.os) <<  "\\t"; break;
-                    default:   (*ctx.os) << (char) byte1;
+                    default:
+                        // the other control characters can only be represented as escape sequences
+                        if (byte1 < 0x20)
+                            write_escaped_utf8(ctx.os, byte1);
+                        else
+                            (*ctx.os) << (char) byte1;
                 }
                 i++;
             }
diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index f16cad0..017e2d7 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -487,6 +487,10 @@ class tokenizer
                 value += (char) (0x80 | (codepoint & 0x3F));
             }
             else
+            // 1-byte UTF-8 = 0xxxxxxx
+            if (codepoint <= 0x7F)
+                value += (char) codepoint;
+            else
             // 2-byte UTF-8 = 110xxxxx 10xxxxxx
             if (codepoint >= 0x80 && codepoint <= 0x7FF)
             {
-- 
2.43.0


From c5f44c4bbf573a798deff028dc822794312f035e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:27 +0000
Subject: [PATCH 04/46] fix: double and float values lost precision in JSON

---
 source/cpp/json-number.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index b03d57e..fe50c5d 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -79,13 +79,19 @@ std::string number_to_string( const T &value )
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return "0";
-    _snprintf_l(tmp, sizeof(tmp) - 1, "%f", loc, value);
+    _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, std::numeric_limits<T>::digits10, value);
+    // use as many digits as required to represent exactly the same value
+    if (string_to_number<T>(tmp) != value)
+        _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, std::numeric_limits<T>::max_digits10, value);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return "0";
     locale_t old = uselocale(loc);
     if (old == 0) return "0";
-    snprintf(tmp, sizeof(tmp) - 1, "%f", value);
+    snprintf(tmp, sizeof(tmp) - 1, "%.*g", std::numeric_limits<T>::digits10, value);
+    // use as many digits as required to represent exactly the same value
+    if (string_to_number<T>(tmp) != value)
+        snprintf(tmp, sizeof(tmp) - 1, "%.*g", std::numeric_limits<T>::max_digits10, value);
     uselocale(old);
 #endif
     tmp[sizeof(tmp) - 1] = 0;
-- 
2.43.0


From 1c7134b0a6421bb6fedbc86328f1040e2fb42da3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:57 +0000
Subject: [PATCH 05/46] fix: generated header did not compile with non-repeated
 bytes fields only

---
 source/cpp/cppgen.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 74fb78b..6b78f46 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -547,11 +547,10 @@ static void generateInclusions( GeneratorContext &ctx )
         for (const auto &field : message->fields)
         {
             if (field.type.repeated)
-            {
-                if (field.type.id == protogen::TYPE_BYTES)
-                    has_base64 = true;
                 has_array = true;
-            }
+            if (field.type.id == protogen::TYPE_BYTES)
+                has_base64 = true;
+            else
             if (field.type.id == protogen::TYPE_STRING)
                 has_string = true;
             else
-- 
2.43.0


From e32ea92776b8ca424c29a82503aa43479cb9ff87 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 06/46] fix: malformed base64 was decoded to something else
 instead of being rejected

---
 source/cpp/json-base64.hh | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/source/cpp/json-base64.hh b/source/cpp/json-base64.hh
index 78226c3..46e6664 100644
--- a/source/cpp/json-base64.hh
+++ b/source/cpp/json-base64.hh
@@ -19,7 +19,7 @@ struct json< std::vector<uint8_t> >
         if (ch >= 'A' && ch <= 'Z') return ch - 'A';
         if (ch >= 'a' && ch <= 'z') return (ch - 'a') + 26;
         if (ch == '=') return 64;
-        return 0;
+        return -1;
     }
     static int write( json_context &ctx, const std::vector<uint8_t> &value )
     {
@@ -63,41 +63,34 @@ struct json< std::vector<uint8_t> >
         if (ctx.tok->peek().id != token_id::STRING)
             return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid string");
 
-        size_t k = 0;
         int s[4];
         std::string text = ctx.tok->peek().value;
-        ctx.tok->next();
-        const char *ptr = text.c_str();
+        if (text.size() % 4 != 0)
+            return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid base64 data");
 
-        while (true)
+        for (size_t i = 0; i < text.size(); i += 4)
         {
             // read 4 characters
             for (size_t j = 0; j < 4; ++j)
             {
-                int ch = *ptr++;
-                if (ch == 0)
-                {
-                    if (j != 0) ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
-                    return PGR_OK;
-                }
-                s[j] = b64_int(ch);
+                s[j] = b64_int(text[i + j]);
+                if (s[j] < 0)
+                    return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid base64 data");
             }
+            // padding is allowed only at the end of the data
+            if (s[0] == 64 || s[1] == 64 || (s[2] == 64 && s[3] != 64) || (s[3] == 64 && i + 4 != text.size()))
+                return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid base64 data");
             // decode base64 tuple
             value.push_back( (uint8_t) (((s[0] & 0xFF) << 2 ) | ((s[1] & 0x30) >> 4)) );
             if (s[2] != 64)
             {
                 value.push_back( (uint8_t) (((s[1] & 0x0F) << 4) | ((s[2] & 0x3C) >> 2)) );
-                if ((s[3]!=64))
-                {
+                if (s[3] != 64)
                     value.push_back( (uint8_t) (((s[2] & 0x03) << 6) | s[3]) );
-                    k+=3;
-                }
-                else
-                    k+=2;
             }
-            else
-                k+=1;
         }
+        ctx.tok->next();
+        return PGR_OK;
     }
     static bool empty( const std::vector<uint8_t> &value ) { return value.empty(); }
     static void clear( std::vector<uint8_t> &value ) { value.clear(); }
-- 
2.43.0


From 9e287ea96d953fc0f659bb73b109e58e214e0e0e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:06 +0000
Subject: [PATCH 07/46] fix: repeated bytes fields held a single byte sequence

---
 source/cpp/cppgen.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 6b78f46..17d905d 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -131,7 +131,10 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         valueType += "::string_field";
     }
     else
-    if (field.type.id >= protogen::TYPE_DOUBLE && field.type.id <= protogen::TYPE_BYTES)
+    if (field.type.id == protogen::TYPE_BYTES)
+        valueType = "std::vector<uint8_t>";
+    else
+    if (field.type.id >= protogen::TYPE_DOUBLE && field.type.id <= protogen::TYPE_BOOL)
     {
         int index = (int)field.type.id - (int)protogen::TYPE_DOUBLE;
         valueType = TYPE_MAPPING[index].nativeType;
@@ -142,7 +145,7 @@ static std::string fieldNativeType( const Field &field, bool useLists )
     else
         throw protogen::exception("Invalid field type");
 
-    if (field.type.repeated || field.type.id == protogen::TYPE_BYTES)
+    if (field.type.repeated)
     {
         std::string output = "std::";
         if (field.type.id == protogen::TYPE_BYTES || !useLists)
@@ -153,7 +156,7 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         output += '>';
         return output;
     }
-    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING)
+    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING || field.type.id == protogen::TYPE_BYTES)
         return valueType;
     else
     {
-- 
2.43.0


From b39669282288e449fc99f278247f866808943eee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:58 +0000
Subject: [PATCH 08/46] fix: serialization reported success after failing to
 write a field or array element

---
 source/cpp/code.txt      | 2 +-
 source/cpp/json-array.hh | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index ec525ea..8d3ff7c 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -102,7 +102,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__WRITE__ITEM
-        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; json<decltype(value.$1$)>::write(ctx, value.$1$); f=false; }
+        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; if (json<decltype(value.$1$)>::write(ctx, value.$1$) == PGR_ERROR) return PGR_ERROR; f=false; }
 ------
 
 --- CODE_JSON__WRITE__FOOTER
diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index a15479c..cecaa0e 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -65,7 +65,8 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         size_t i = 0, t = value.size();
         for (auto it = value.begin(); it != value.end(); ++it, ++i)
         {
-            json<typename T::value_type>::write(ctx, *it);
+            if (json<typename T::value_type>::write(ctx, *it) == PGR_ERROR)
+                return PGR_ERROR;
             if (i + 1 < t) (*ctx.os) <<  ',';
         }
         (*ctx.os) <<  ']';
-- 
2.43.0


From b0ea4652753605945c78c852c1722669390c340f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 09/46] fix: ensure_ascii accepted overlong, surrogate and out
 of range UTF-8 sequences

---
 source/cpp/json-string.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 1b0095e..b1912db 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -104,6 +104,9 @@ struct json<std::string, void>
                 if (byte1 >= 0xC0 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x1F) << 6) | (byte2 & 0x3F);
+                    // overlong sequences are invalid
+                    if (codepoint < 0x80)
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
                     write_escaped_utf8(ctx.os, codepoint);
                     i += 2;
                     continue;
@@ -118,6 +121,9 @@ struct json<std::string, void>
                 if (byte1 >= 0xE0 && byte1 <= 0xEF && i + 2 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x0F) << 12) | ((byte2 & 0x3F) << 6) | (byte3 & 0x3F);
+                    // overlong sequences and surrogates are invalid
+                    if (codepoint < 0x800 || (codepoint >= 0xD800 && codepoint <= 0xDFFF))
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
                     write_escaped_utf8(ctx.os, codepoint);
                     i += 3;
                     continue;
@@ -132,6 +138,9 @@ struct json<std::string, void>
                 if (byte1 >= 0xF0 && byte1 <= 0xF4 && i + 3 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80 && (byte4 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x07) << 18) | ((byte2 & 0x3F) << 12) | ((byte3 & 0x3F) << 6) | (byte4 & 0x3F);
+                    // overlong sequences and values out of the Unicode range are invalid
+                    if (codepoint < 0x10000 || codepoint > 0x10FFFF)
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                     // break the codepoint into UTF-16 surrogate pair
                     static const uint32_t LEAD_OFFSET = 0xD800 - (0x10000 >> 10);
-- 
2.43.0


From 3bf5dbd38f63be815134f6586079bf93379a8c26 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:30 +0000
Subject: [PATCH 10/46] fix: infinities and NaN were written as invalid JSON

---
 source/cpp/json-number.hh | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index fe50c5d..4aa6089 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -104,6 +104,18 @@ std::string number_to_string( const T &value )
     return std::to_string(value);
 }
 
+template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
+bool is_finite_number( const T &value )
+{
+    return std::isfinite(value);
+}
+
+template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
+bool is_finite_number( const T & )
+{
+    return true;
+}
+
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 int equal_number( const T &value1, const T &value2 )
 {
@@ -160,6 +172,9 @@ struct json<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
     }
     static int write( json_context &ctx, const T &value )
     {
+        // JSON cannot represent infinities and NaN
+        if (!is_finite_number(value))
+            return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "number is not finite");
         (*ctx.os) << number_to_string(value);
         return PGR_OK;
     }
-- 
2.43.0


From dd1d4096311d8333abd0fa672f288cf0d4b204ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:51 +0000
Subject: [PATCH 11/46] fix: a null member set string fields to an empty string

---
 source/cpp/json-string.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index b1912db..94f01e4 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -173,8 +173,10 @@ struct json<string_field, void>
         std::string temp;
         temp.clear();
         int result = json<std::string, void>::read(ctx, temp);
-        value.empty(result == PGR_NIL);
-        value = temp;
+        if (result == PGR_NIL)
+            value.clear();
+        else
+            value = temp;
         return result;
     }
     static int write( json_context &ctx, const string_field &value )
-- 
2.43.0


From 3ba9cf682ad951114324de52977767265ebbedeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 12/46] fix: assigning an unset field left the previous value
 behind

---
 source/cpp/json-number.hh | 2 +-
 source/cpp/json-string.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 4aa6089..b506efa 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -20,7 +20,7 @@ template<typename T> class field
         void swap( T &that ) { std::swap(this->value_, that); empty_ = false; }
         bool empty() const { return empty_; }
         void clear() { value_ = (T) 0; empty_ = true; }
-        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; if (!empty_) this->value_ = that.value_; return *this; }
+        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; this->value_ = that.value_; return *this; }
         field<T> &operator=( const T &that ) { this->empty_ = false; this->value_ = that; return *this; }
         bool operator==( const T &that ) const { return !this->empty_ && this->value_ == that; }
         bool operator!=( const T &that ) const { return !this->empty_ && this->value_ != that; }
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 94f01e4..1f114ba 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -22,7 +22,7 @@ class string_field
         bool empty() const { return null_ && value_.empty(); }
         void empty(bool state) { null_ = state; if (state) value_.clear(); }
         void clear() { value_.clear(); null_ = true; }
-        string_field &operator=( const string_field &that ) { this->null_ = that.null_; if (!null_) this->value_ = that.value_; return *this; }
+        string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
         bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-- 
2.43.0


From dcbfc62585c3dcee9bfc404e68e7c4357a246149 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:01 +0000
Subject: [PATCH 13/46] fix: unpaired leading surrogates in JSON strings were
 accepted

---
 source/cpp/protogen.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 017e2d7..bf987c7 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -412,6 +412,9 @@ class tokenizer
             {
                 input_.next();
                 int c = input_.peek();
+                // the first value in a surrogate pair must be followed by the second one
+                if (lead != 0 && c != '\\')
+                    goto ESCAPE;
                 if (c == '"')
                 {
                     input_.next();
@@ -421,6 +424,8 @@ class tokenizer
                 {
                     input_.next();
                     c = input_.peek();
+                    if (lead != 0 && c != 'u')
+                        goto ESCAPE;
                     switch (c)
                     {
                         case '"':  value += '"'; break;
@@ -463,6 +468,10 @@ class tokenizer
             }
             int32_t codepoint = (int32_t) strtol(temp, nullptr, 16);
 
+            // the first value in a surrogate pair must be followed by the second one
+            if (lead != 0 && (codepoint < 0xDC00 || codepoint > 0xDFFF))
+                return false;
+
             // first value in UTF-16 surrogate pair
             if (codepoint >= 0xD800 && codepoint <= 0xDBFF)
             {
-- 
2.43.0


From c3ad67ffe4a4daf0a20675d140c11e9ad110ce4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:02 +0000
Subject: [PATCH 14/46] fix: line feeds inside JSON tokens were dropped
 (strings lost them, 1<LF>2 was read as 12)

---
 source/cpp/protogen.hh | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index bf987c7..b270023 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -162,7 +162,6 @@ class iterator_istream : public istream
         iterator_istream( const I& first, const I& last ) : beg_(first), end_(last), line_(1),
             column_(1)
         {
-            skip();
         }
         int peek() override
         {
@@ -172,9 +171,14 @@ class iterator_istream : public istream
         void next() override
         {
             if (beg_ == end_) return;
+            if (*beg_ == '\n')
+            {
+                ++line_;
+                column_ = 1;
+            }
+            else
+                ++column_;
             ++beg_;
-            ++column_;
-            skip();
         }
         bool eof() const override { return beg_ == end_; }
         int line() const override { return line_; }
@@ -182,15 +186,6 @@ class iterator_istream : public istream
     protected:
         I beg_, end_;
         int line_, column_;
-        void skip()
-        {
-            while (!(beg_ == end_) && *beg_ == '\n')
-            {
-                ++line_;
-                column_ = 1;
-                ++beg_;
-            }
-        }
 };
 
 template<class T>
-- 
2.43.0


From 8d65d46e1397915d8b8d434e2d6b635b6a1b3680 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:13 +0000
Subject: [PATCH 15/46] fix: trailing commas in skipped arrays and objects were
 accepted

---
 source/cpp/protogen.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index b270023..8e68c78 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -552,12 +552,12 @@ class tokenizer
             if (!expect(token_id::ARRS))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
 
-            while (peek().id != token_id::ARRE)
+            if (expect(token_id::ARRE)) return PGR_OK;
+            do
             {
                 int result = ignore_value();
                 if (result != PGERR_OK) return result;
-                if (!expect(token_id::COMMA)) break;
-            }
+            } while (expect(token_id::COMMA));
             if (!expect(token_id::ARRE))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
             return PGR_OK;
@@ -568,7 +568,8 @@ class tokenizer
             if (!expect(token_id::OBJS))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
 
-            while (peek().id != token_id::OBJE)
+            if (expect(token_id::OBJE)) return PGR_OK;
+            do
             {
                 if (!expect(token_id::STRING))
                     return error(error_code::PGERR_IGNORE_FAILED, "expected field name");
@@ -576,8 +577,7 @@ class tokenizer
                     return error(error_code::PGERR_IGNORE_FAILED, "expected colon");
                 int result = ignore_value();
                 if (result != PGERR_OK) return result;
-                if (!expect(token_id::COMMA)) break;
-            }
+            } while (expect(token_id::COMMA));
             if (!expect(token_id::OBJE))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
             return PGR_OK;
-- 
2.43.0


From aa1ed5b3db785a34e2a056764293483fff357f4f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:12 +0000
Subject: [PATCH 16/46] fix: skipping deeply nested values overflowed the stack

---
 source/cpp/protogen.hh | 99 ++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 52 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 8e68c78..1c5aec2 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -547,67 +547,62 @@ class tokenizer
             return token(token_id::NUMBER, value, line, column);
         }
 
-        int ignore_array()
+        int ignore_name()
         {
-            if (!expect(token_id::ARRS))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
-
-            if (expect(token_id::ARRE)) return PGR_OK;
-            do
-            {
-                int result = ignore_value();
-                if (result != PGERR_OK) return result;
-            } while (expect(token_id::COMMA));
-            if (!expect(token_id::ARRE))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
-            return PGR_OK;
-        }
-
-        int ignore_object()
-        {
-            if (!expect(token_id::OBJS))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
-
-            if (expect(token_id::OBJE)) return PGR_OK;
-            do
-            {
-                if (!expect(token_id::STRING))
-                    return error(error_code::PGERR_IGNORE_FAILED, "expected field name");
-                if (!expect(token_id::COLON))
-                    return error(error_code::PGERR_IGNORE_FAILED, "expected colon");
-                int result = ignore_value();
-                if (result != PGERR_OK) return result;
-            } while (expect(token_id::COMMA));
-            if (!expect(token_id::OBJE))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
+            if (!expect(token_id::STRING))
+                return error(error_code::PGERR_IGNORE_FAILED, "expected field name");
+            if (!expect(token_id::COLON))
+                return error(error_code::PGERR_IGNORE_FAILED, "expected colon");
             return PGR_OK;
         }
 
+        // The open brackets are kept in a string instead of in the call stack, so that
+        // the nesting level is not limited.
         int ignore_value()
         {
-            switch (peek().id)
+            std::string open;
+            do
             {
-                case token_id::NONE:
-                case token_id::EOS:
-                    return error(error_code::PGERR_IGNORE_FAILED, "end of stream");
-                case token_id::OBJS:
-                    return ignore_object();
-                case token_id::ARRS:
-                    return ignore_array();
-                case token_id::STRING:
-                case token_id::NUMBER:
-                case token_id::NIL:
-                case token_id::BTRUE:
-                case token_id::BFALSE:
+                switch (peek().id)
                 {
-                    auto tt = next();
-                    if (tt.id == token_id::NONE || tt.id == token_id::EOS)
-                        return error(PGERR_IGNORE_FAILED, "end of stream");
-                    return PGERR_OK;
+                    case token_id::NONE:
+                    case token_id::EOS:
+                        return error(error_code::PGERR_IGNORE_FAILED, "end of stream");
+                    case token_id::OBJS:
+                        open += '{';
+                        if (next().id == token_id::OBJE) break;
+                        if (ignore_name() != PGR_OK) return PGR_ERROR;
+                        continue;
+                    case token_id::ARRS:
+                        open += '[';
+                        if (next().id == token_id::ARRE) break;
+                        continue;
+                    case token_id::STRING:
+                    case token_id::NUMBER:
+                    case token_id::NIL:
+                    case token_id::BTRUE:
+                    case token_id::BFALSE:
+                    {
+                        token_id id = next().id;
+                        if (id == token_id::NONE || id == token_id::EOS)
+                            return error(error_code::PGERR_IGNORE_FAILED, "end of stream");
+                        break;
+                    }
+                    default:
+                        return error(error_code::PGERR_IGNORE_FAILED, "invalid value");
                 }
-                default:
-                    return error(error_code::PGERR_IGNORE_FAILED, "invalid value");
-            }
+                // the value is complete: close the brackets that end here
+                while (!open.empty() && !expect(token_id::COMMA))
+                {
+                    bool is_object = open.back() == '{';
+                    if (!expect(is_object ? token_id::OBJE : token_id::ARRE))
+                        return error(error_code::PGERR_IGNORE_FAILED, is_object ? "invalid object" : "invalid array");
+                    open.pop_back();
+                }
+                if (!open.empty() && open.back() == '{' && ignore_name() != PGR_OK)
+                    return PGR_ERROR;
+            } while (!open.empty());
+            return PGR_OK;
         }
 };
 
-- 
2.43.0


From 1aa752de6632f827bec23a36d4a0ac1377481909 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:32 +0000
Subject: [PATCH 17/46] fix: reading null failed without an error code

---
 source/cpp/json-array.hh | 1 +
 source/cpp/json.hh       | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index cecaa0e..f176656 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -94,6 +94,7 @@ bool deserialize_array( T& container, protogen_X_Y_Z::istream& in, protogen_X_Y_
     ctx.tok = &tok;
     int result = json<T>::read(ctx, container);
     if (result == protogen_X_Y_Z::PGR_OK) return true;
+    if (result == protogen_X_Y_Z::PGR_NIL) tok.error(error_code::PGERR_INVALID_ARRAY, "unexpected null");
     if (params != nullptr) params->error = std::move(ctx.params.error);
     return false;
 }
diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index 194155e..0c4d140 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -82,6 +82,8 @@ static int read_object( json_context &ctx, T &object )
             ctx.tok = &tok; \
             int result = S::read(ctx, *this); \
             if (result == protogen_X_Y_Z::PGR_OK) return true; \
+            if (result == protogen_X_Y_Z::PGR_NIL) \
+                tok.error(protogen_X_Y_Z::error_code::PGERR_INVALID_OBJECT, "unexpected null"); \
             if (params != nullptr) params->error = std::move(ctx.params.error); \
             return false; \
         } \
-- 
2.43.0


From 87e64c9efb3bfc116a5c91b52ac7b64ebf375740 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:30 +0000
Subject: [PATCH 18/46] fix: serialization to a char buffer skipped its first
 byte

---
 source/cpp/protogen.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 1c5aec2..9abd897 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -124,18 +124,26 @@ class iterator_ostream : public ostream
         }
         ostream & operator<<( char value ) override
         {
-            *++beg_ = value;
+            *beg_ = value;
+            ++beg_;
             return *this;
         }
         ostream & operator<<( const std::string &value ) override
         {
             for (auto it = value.begin(); it != value.end(); ++it)
-                *++beg_ = *it;
+            {
+                *beg_ = *it;
+                ++beg_;
+            }
             return *this;
         }
         ostream & operator<<( const char *value ) override
         {
-            while (*value != 0) *++beg_ = *value++;
+            while (*value != 0)
+            {
+                *beg_ = *value++;
+                ++beg_;
+            }
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
-- 
2.43.0


From f4223250a2da5aaa0f2ba697b77745eb48e053e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:43 +0000
Subject: [PATCH 19/46] fix: serialization to a char buffer that is too small
 reported success

---
 source/cpp/protogen.hh | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 9abd897..eb34835 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -43,6 +43,7 @@ enum error_code
     PGERR_INVALID_OBJECT    = 5,
     PGERR_INVALID_NAME      = 6,
     PGERR_INVALID_ARRAY     = 7,
+    PGERR_BUFFER_OVERFLOW   = 8,
 };
 
 enum parse_error
@@ -147,6 +148,7 @@ class iterator_ostream : public ostream
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
+        const I &iterator() const { return beg_; }
 
     protected:
         I beg_;
@@ -229,12 +231,15 @@ class mem_iterator
 {
     static_assert(std::is_arithmetic<T>::value, "invalid template parameters");
     public:
-        mem_iterator( T *begin, size_t count ) : cursor(begin), end(begin + count), empty(0)
+        mem_iterator( T *begin, size_t count ) : cursor(begin), end(begin + count), empty(0), full(false)
         {
         }
         mem_iterator &operator++()
         {
-            if (cursor < end) cursor++;
+            if (cursor < end)
+                cursor++;
+            else
+                full = true;
             return *this;
         }
         T &operator*()
@@ -246,10 +251,13 @@ class mem_iterator
         {
             return cursor == that.cursor;
         }
+        /// Whether something was written beyond the end
+        bool overflow() const { return full; }
     protected:
         T *cursor;
         const T *end;
         T empty;
+        bool full;
 };
 
 namespace internal {
@@ -698,7 +706,11 @@ struct message
     {
         auto begin = mem_iterator<char>(in, len);
         iterator_ostream<mem_iterator<char>> os(begin);
-        return serialize(os, params);
+        if (!serialize(os, params)) return false;
+        if (!os.iterator().overflow()) return true;
+        if (params != nullptr)
+            params->error = ErrorInfo(error_code::PGERR_BUFFER_OVERFLOW, "the output buffer is too small", 0, 0);
+        return false;
     }
 
     virtual bool serialize( std::vector<char> &out, Parameters *params = nullptr ) const
-- 
2.43.0


From f3891019aded44f5aedd3cd25f606fcf73117ae4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:22 +0000
Subject: [PATCH 20/46] fix: errors at a string token were reported without
 position

---
 source/cpp/protogen.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index eb34835..93d2925 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -429,7 +429,7 @@ class tokenizer
                 if (c == '"')
                 {
                     input_.next();
-                    return token(token_id::STRING, value);
+                    return token(token_id::STRING, value, line, column);
                 }
                 if (c == '\\')
                 {
-- 
2.43.0


From 997ed5c0083a0a1310ad2aceec1ddbce9c018075 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 21/46] fix: the parser did not terminate on a line comment at
 the end of the file

---
 source/proto3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 384b833..dad1499 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -382,7 +382,7 @@ template <typename I> class Tokenizer
 
             if (cur == '/')
             {
-                while ((cur = is.get()) != '\n') temp.value += (char) cur;
+                while ((cur = is.get()) != '\n' && cur >= 0) temp.value += (char) cur;
                 return temp;
             }
             else
-- 
2.43.0


From bc5d5ce5c9ffb8fe8b2fc36f43477842ab690521 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:48 +0000
Subject: [PATCH 22/46] fix: unterminated strings were taken for the end of the
 file or made the parser hang

---
 source/proto3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index dad1499..5a99417 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -473,7 +473,7 @@ template <typename I> class Tokenizer
             do
             {
                 int cur = is.get();
-                if (cur == '\n' || cur == 0) return Token();
+                if (cur == '\n' || cur <= 0) throw exception("Unterminated string", line, column);
                 if (cur == '"') return tt;
                 tt.value += (char) cur;
             } while (true);
-- 
2.43.0


From e74904eebea8f201512177b46cd434ca39a6f5bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:01 +0000
Subject: [PATCH 23/46] fix: unterminated block comments were accepted

---
 source/proto3.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 5a99417..73faf98 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -327,7 +327,7 @@ template <typename I> class Tokenizer
                 else
                 if (cur == '/')
                 {
-                    comment(); //discarding
+                    comment(line, column); //discarding
                     continue;
                 }
                 else
@@ -375,7 +375,7 @@ template <typename I> class Tokenizer
     private:
         InputStream<I> &is;
 
-        Token comment()
+        Token comment( int line = 1, int column = 1 )
         {
             Token temp(TOKEN_COMMENT, "");
             int cur = is.get();
@@ -392,7 +392,7 @@ template <typename I> class Tokenizer
                 {
                     cur = is.get();
                     if (cur == '*' && is.expect('/')) return temp;
-                    if (cur < 0) return Token();
+                    if (cur < 0) throw exception("Unterminated comment", line, column);
                     temp.value += (char) cur;
                 }
             }
-- 
2.43.0


From a4435480372f2f5a3b482b7083b5ad7af1fbb117 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:15 +0000
Subject: [PATCH 24/46] fix: a slash followed by any character was taken for a
 comment

---
 source/proto3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 73faf98..c42881d 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -397,7 +397,7 @@ template <typename I> class Tokenizer
                 }
             }
 
-            return Token();
+            throw exception("Invalid symbol", line, column);
         }
 
         Token qname( int line = 1, int column = 1 )
-- 
2.43.0


From 9714c10b5d48471597df978cb87eb1714024284b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 25/46] fix: messages cut by the end of the file were accepted

---
 source/proto3.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index c42881d..b10b4a6 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -700,10 +700,10 @@ static void parseMessage( ProtoContext &ctx )
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
-            while (ctx.tokens.next().code != TOKEN_EOF)
+            while (ctx.tokens.next().code != TOKEN_END)
             {
-                if (ctx.tokens.current.code == TOKEN_END)
-                    break;
+                if (ctx.tokens.current.code == TOKEN_EOF)
+                    throw exception("Unterminated message", CURRENT_TOKEN_POSITION);
                 if (ctx.tokens.current.code == TOKEN_OPTION)
                     parseStandardOption(ctx, message->options);
                 else
-- 
2.43.0


From 87641541c8eb58da21cfe362c2bd1ca237fb26af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:49 +0000
Subject: [PATCH 26/46] fix: field options without separating commas were
 accepted

---
 source/proto3.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index b10b4a6..73c2b7e 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -561,15 +561,12 @@ static OptionEntry parseOption( ProtoContext &ctx )
 
 static void parseFieldOptions( ProtoContext &ctx, OptionMap &entries )
 {
-    while (true)
+    do
     {
-        if (ctx.tokens.next().code == TOKEN_RBRACKET) break;
-        ctx.tokens.unget();
         OptionEntry option = parseOption(ctx);
-        if (ctx.tokens.next().code != TOKEN_COMMA) ctx.tokens.unget();
         entries[option.name] = option;
-    }
-    // give back the TOKEN_RBRACKET
+    } while (ctx.tokens.next().code == TOKEN_COMMA);
+    // give back the token after the last option
     ctx.tokens.unget();
 }
 
-- 
2.43.0


From 38e2596a175cc7598fff5355a1397bcc0804c164 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:16 +0000
Subject: [PATCH 27/46] fix: field numbers were truncated to 32 bits and the
 largest one was rejected

---
 source/proto3.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 73c2b7e..55fe10b 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -656,10 +656,11 @@ static void parseField( ProtoContext &ctx, Message &message )
     // index
     if (ctx.tokens.next().code != TOKEN_INTEGER)
         throw exception("Missing field index", TOKEN_POSITION(ctx.tokens.current));
-    field.index = (int) strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
+    long index = strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
     // https://protobuf.dev/programming-guides/proto3/#assigning
-    if (field.index <= 0 || field.index >= 0x1FFFFFFF || field.index == 0x4E1F || field.index == 0x4A38)
+    if (index <= 0 || index > 0x1FFFFFFF || index == 0x4E1F || index == 0x4A38)
         throw exception("Invalid field index", TOKEN_POSITION(ctx.tokens.current));
+    field.index = (int) index;
 
     ctx.tokens.next();
 
-- 
2.43.0


From bed19cd5d898de362cab7840fc1822dc677a0773 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:29 +0000
Subject: [PATCH 28/46] fix: only the first and the last reserved field numbers
 were rejected

---
 source/proto3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 55fe10b..782f24b 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -658,7 +658,7 @@ static void parseField( ProtoContext &ctx, Message &message )
         throw exception("Missing field index", TOKEN_POSITION(ctx.tokens.current));
     long index = strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
     // https://protobuf.dev/programming-guides/proto3/#assigning
-    if (index <= 0 || index > 0x1FFFFFFF || index == 0x4E1F || index == 0x4A38)
+    if (index <= 0 || index > 0x1FFFFFFF || (index >= 19000 && index <= 19999))
         throw exception("Invalid field index", TOKEN_POSITION(ctx.tokens.current));
     field.index = (int) index;
 
-- 
2.43.0


From 9d576a3b4fcfcf5593fbb5b74abf70597cc19698 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:29 +0000
Subject: [PATCH 29/46] fix: reject fields with the same name in a message

---
 source/proto3.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/proto3.cc b/source/proto3.cc
index 782f24b..d5f55ea 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -650,6 +650,9 @@ static void parseField( ProtoContext &ctx, Message &message )
     if (code != TOKEN_NAME && code != TOKEN_MESSAGE && code != TOKEN_PACKAGE)
         throw exception("Missing field name", TOKEN_POSITION(ctx.tokens.current));
     field.name = ctx.tokens.current.value;
+    for (const auto &other : message.fields)
+        if (other.name == field.name)
+            throw exception("Duplicated field '" + field.name + "'", TOKEN_POSITION(ctx.tokens.current));
     // equal symbol
     if (ctx.tokens.next().code != TOKEN_EQUAL)
         throw exception("Expected '='", TOKEN_POSITION(ctx.tokens.current));
-- 
2.43.0


From 157e7e2b43b50bacb8284ffa1b6a6682fd3d6f1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 30/46] fix: reject messages with the same name in a package

---
 source/proto3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/proto3.cc b/source/proto3.cc
index d5f55ea..def2528 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -698,6 +698,8 @@ static void parseMessage( ProtoContext &ctx )
             auto message = std::make_shared<Message>();
             message->package = ctx.package;
             message->name = ctx.tokens.current.value;
+            if (findMessage(ctx, message->qualifiedName()) != nullptr)
+                throw exception("Duplicated message '" + message->qualifiedName() + "'", CURRENT_TOKEN_POSITION);
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
-- 
2.43.0


From 49e33a2a19a0d95373da7d067632169d260f5999 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:44 +0000
Subject: [PATCH 31/46] fix: obfuscated names with characters that become NUL
 were truncated

---
 source/cpp/code.txt  |  2 +-
 source/cpp/cppgen.cc | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index 8d3ff7c..a3c3a82 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -230,7 +230,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__INDEX__ITEM
-            {"$1$", $2$},
+            {$1$, $2$},
 ------
 
 --- CODE_JSON__INDEX__FOOTER
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 17d905d..1c910fc 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -226,6 +226,12 @@ static inline std::string obfuscate( const std::string &value )
 	return result.str();
 }
 
+// The length must be explicit because obfuscated strings may contain NUL characters.
+static inline std::string obfuscated_literal( const std::string &value )
+{
+    return Printer::format("std::string(\"$1$\",$2$)", obfuscate(value), value.length());
+}
+
 static std::string get_option( const protogen::OptionMap &options, const std::string &name, const std::string &value )
 {
     if (options.count(name) == 0)
@@ -305,7 +311,7 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = Printer::format("reveal(\"$1$\")", obfuscate(label));
+            label = Printer::format("reveal($1$)", obfuscated_literal(label));
         else
             label = Printer::format("\"$1$\"", label);
 
@@ -418,7 +424,9 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = obfuscate(label);
+            label = obfuscated_literal(label);
+        else
+            label = Printer::format("\"$1$\"", label);
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
-- 
2.43.0


From 625201c08cb751d2b504afafc0d1bd90dd03e92a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:14 +0000
Subject: [PATCH 32/46] fix: reject JSON names with backslashes or control
 characters

---
 source/cpp/cppgen.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 1c910fc..5bc990d 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -265,6 +265,9 @@ static std::string get_json_name( const Field &field )
     for (auto c : name)
         if (c == '\'' || c == '"')
             throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes", 1, 1);
+        else
+        if (c == '\\' || (uint8_t) c < 0x20)
+            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain backslashes or control characters", 1, 1);
     return name;
 }
 
-- 
2.43.0


From 28e2c1c5678ccca1d805ccb3495013f399d2f56a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 33/46] fix: reject JSON names that are not UTF-8 text

---
 source/cpp/cppgen.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 5bc990d..1e5df21 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -259,6 +259,30 @@ static bool is_transient( const Field &field )
     return get_option(field.options, PROTOGEN_O_TRANSIENT, false);
 }
 
+static bool is_utf8( const std::string &text )
+{
+    for (size_t i = 0; i < text.length();)
+    {
+        uint8_t lead = (uint8_t) text[i++];
+        if (lead < 0x80)
+            continue;
+        // number of continuation bytes and the range of the first one (without overlong
+        // sequences, surrogates and values out of the Unicode range)
+        int count = lead < 0xE0 ? 1 : lead < 0xF0 ? 2 : 3;
+        uint8_t low = lead == 0xE0 ? 0xA0 : lead == 0xF0 ? 0x90 : 0x80;
+        uint8_t high = lead == 0xED ? 0x9F : lead == 0xF4 ? 0x8F : 0xBF;
+        if (lead < 0xC2 || lead > 0xF4)
+            return false;
+        for (; count > 0; --count, low = 0x80, high = 0xBF)
+        {
+            if (i >= text.length() || (uint8_t) text[i] < low || (uint8_t) text[i] > high)
+                return false;
+            ++i;
+        }
+    }
+    return true;
+}
+
 static std::string get_json_name( const Field &field )
 {
     auto name = get_option(field.options, PROTOGEN_O_NAME, field.name);
@@ -268,6 +292,8 @@ static std::string get_json_name( const Field &field )
         else
         if (c == '\\' || (uint8_t) c < 0x20)
             throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain backslashes or control characters", 1, 1);
+    if (!is_utf8(name))
+        throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must be UTF-8 text", 1, 1);
     return name;
 }
 
-- 
2.43.0


From cdaed69a763243e6ba280ca475da0d9c24e901f1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:43 +0000
Subject: [PATCH 34/46] fix: reject messages with repeated JSON names

---
 source/cpp/cppgen.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 1e5df21..a5ecbb3 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -508,6 +508,13 @@ static void generateMessage( GeneratorContext &ctx, const Message &message )
         throw protogen::exception("more than " + std::to_string(protogen::CppGenerator::MAX_FIELDS) +
             " fields in message '" + message.name + "'");
 
+    // fields with the same JSON name could not be told apart
+    std::unordered_set<std::string> names;
+    for (const auto &field : message.fields)
+        if (!ctx.number_names && !is_transient(field) && !names.insert(get_json_name(field)).second)
+            throw protogen::exception("more than one field with the JSON name '" + get_json_name(field) +
+                "' in message '" + message.name + "'");
+
     ctx.printer("\n//\n// $1$\n//\n", message.name);
 
     // create the model structure
-- 
2.43.0


From 7fd8b690bbd705a397b32672d72e13261966bb44 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:39 +0000
Subject: [PATCH 35/46] fix: JSON names with trigraphs were changed by C++11
 compilers

---
 source/cpp/cppgen.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index a5ecbb3..2665b36 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -226,6 +226,19 @@ static inline std::string obfuscate( const std::string &value )
 	return result.str();
 }
 
+static inline std::string plain_literal( const std::string &value )
+{
+    std::string result = "\"";
+    for (auto c : value)
+    {
+        // question marks can be part of trigraphs
+        if (c == '?' || c == '\\')
+            result += '\\';
+        result += c;
+    }
+    return result + '"';
+}
+
 // The length must be explicit because obfuscated strings may contain NUL characters.
 static inline std::string obfuscated_literal( const std::string &value )
 {
@@ -342,7 +355,7 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
         if (ctx.obfuscate_strings)
             label = Printer::format("reveal($1$)", obfuscated_literal(label));
         else
-            label = Printer::format("\"$1$\"", label);
+            label = plain_literal(label);
 
         ctx.printer(CODE_JSON__WRITE__ITEM, field.name, label);
         ++i;
@@ -455,7 +468,7 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
         if (ctx.obfuscate_strings)
             label = obfuscated_literal(label);
         else
-            label = Printer::format("\"$1$\"", label);
+            label = plain_literal(label);
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
-- 
2.43.0


From 5abe1e1e44068c9545a6e9ec48d3c2a48306afe3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:08 +0000
Subject: [PATCH 36/46] fix: non-ASCII JSON names were not escaped with
 ensure_ascii

---
 source/cpp/cppgen.cc | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 2665b36..dc6ece2 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -333,6 +333,40 @@ static void generate_function__read_field( GeneratorContext &ctx, const Message
     ctx.printer(CODE_JSON__READ_FIELD__FOOTER);
 }
 
+// Returns the text with every non-ASCII character as a JSON escape sequence.
+static std::string escape_non_ascii( const std::string &value )
+{
+    std::string result;
+    for (size_t i = 0; i < value.length();)
+    {
+        uint8_t lead = (uint8_t) value[i++];
+        if (lead < 0x80)
+        {
+            result += (char) lead;
+            continue;
+        }
+        int count = lead < 0xE0 ? 1 : lead < 0xF0 ? 2 : 3;
+        uint32_t codepoint = lead & (0x3F >> count);
+        for (; count > 0 && i < value.length(); --count)
+            codepoint = (codepoint << 6) | ((uint8_t) value[i++] & 0x3F);
+
+        char temp[16];
+        if (codepoint >= 0x10000)
+            SNPRINTF(temp, sizeof(temp), "\\u%04x\\u%04x", 0xD800 + ((codepoint - 0x10000) >> 10), 0xDC00 + (codepoint & 0x3FF));
+        else
+            SNPRINTF(temp, sizeof(temp), "\\u%04x", codepoint);
+        result += temp;
+    }
+    return result;
+}
+
+static std::string label_literal( const GeneratorContext &ctx, const std::string &label )
+{
+    if (ctx.obfuscate_strings)
+        return Printer::format("reveal($1$)", obfuscated_literal(label));
+    return plain_literal(label);
+}
+
 static void generate_function__write( GeneratorContext &ctx, const Message &message, const std::string &typeName,
     bool is_persistent )
 {
@@ -352,12 +386,12 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
         auto name = get_json_name(field);
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
-        if (ctx.obfuscate_strings)
-            label = Printer::format("reveal($1$)", obfuscated_literal(label));
-        else
-            label = plain_literal(label);
+        std::string ascii = escape_non_ascii(label);
+        std::string literal = label_literal(ctx, label);
+        if (ascii != label)
+            literal = Printer::format("(ctx.params.ensure_ascii ? $1$ : $2$)", label_literal(ctx, ascii), literal);
 
-        ctx.printer(CODE_JSON__WRITE__ITEM, field.name, label);
+        ctx.printer(CODE_JSON__WRITE__ITEM, field.name, literal);
         ++i;
     }
 
-- 
2.43.0


From 44681dfa63a70f7c10d69c98cb72ea584f9672bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 37/46] fix: failures to write the header were not reported

---
 source/main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/main.cc b/source/main.cc
index dbdc563..2124e54 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -86,7 +86,10 @@ int main( int argc, char **argv )
         result = 1;
     }
     input.close();
+    output->flush();
     if (argc == 3) out.close();
+    if (result == 0 && !output->good())
+        main_error(argc == 3 ? std::string("Unable to write '") + argv[2] + "'" : "Unable to write the standard output");
 
     return result;
 }
\ No newline at end of file
-- 
2.43.0


From fe552842320a44dec672da466ed6725621269e63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:30 +0000
Subject: [PATCH 38/46] fix: failures to read the input were taken for its end

---
 source/main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/main.cc b/source/main.cc
index 2124e54..1b0e7ab 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -71,6 +71,8 @@ int main( int argc, char **argv )
     try
     {
         proto.parse(input, fullPath);
+        // the end of the input can be a failure to read it
+        if (input.bad()) main_error(std::string("Unable to read '") + argv[1] + "'");
 
         for (auto &message : proto.messages)
         {
-- 
2.43.0


From 50c7b8ee7f35940760ea7c39158e66391850c6a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:50 +0000
Subject: [PATCH 39/46] fix: semantic errors were reported without position

---
 include/protogen/proto3.hh |  5 +++++
 source/cpp/cppgen.cc       | 16 ++++++++--------
 source/proto3.cc           | 10 +++++++---
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/protogen/proto3.hh b/include/protogen/proto3.hh
index c556b7a..f167386 100644
--- a/include/protogen/proto3.hh
+++ b/include/protogen/proto3.hh
@@ -71,6 +71,7 @@ struct OptionEntry
     OptionType type = OptionType::IDENTIFIER;
     std::string value;
     int line = 0;
+    int column = 0;
 };
 
 typedef std::unordered_map<std::string, OptionEntry> OptionMap;
@@ -81,6 +82,8 @@ struct Field
     std::string name;
     int index = 0;
     OptionMap options;
+    int line = 0;
+    int column = 0;
 };
 
 struct Message
@@ -89,6 +92,8 @@ struct Message
     std::string name;
     std::string package;
     OptionMap options;
+    int line = 0;
+    int column = 0;
 
     std::string qualifiedName() const;
     void splitPackage( std::vector<std::string> &out );
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index dc6ece2..8ab701c 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -252,7 +252,7 @@ static std::string get_option( const protogen::OptionMap &options, const std::st
 
     OptionEntry opt = options.at(name);
     if (opt.type != OptionType::STRING)
-        throw exception("The value for '" + name + "' must be a string", opt.line, 1);
+        throw exception("The value for '" + name + "' must be a string", opt.line, opt.column);
     return opt.value;
 }
 
@@ -263,7 +263,7 @@ static bool get_option( const protogen::OptionMap &options, const std::string &n
 
     OptionEntry opt = options.at(name);
     if (opt.type != OptionType::BOOLEAN)
-        throw exception("The value for '" + name + "' must be a boolean", opt.line, 1);
+        throw exception("The value for '" + name + "' must be a boolean", opt.line, opt.column);
     return opt.value == "true";
 }
 
@@ -301,12 +301,12 @@ static std::string get_json_name( const Field &field )
     auto name = get_option(field.options, PROTOGEN_O_NAME, field.name);
     for (auto c : name)
         if (c == '\'' || c == '"')
-            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes", 1, 1);
+            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes", field.line, field.column);
         else
         if (c == '\\' || (uint8_t) c < 0x20)
-            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain backslashes or control characters", 1, 1);
+            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain backslashes or control characters", field.line, field.column);
     if (!is_utf8(name))
-        throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must be UTF-8 text", 1, 1);
+        throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must be UTF-8 text", field.line, field.column);
     return name;
 }
 
@@ -553,14 +553,14 @@ static void generateMessage( GeneratorContext &ctx, const Message &message )
 {
     if (message.fields.size() > protogen::CppGenerator::MAX_FIELDS)
         throw protogen::exception("more than " + std::to_string(protogen::CppGenerator::MAX_FIELDS) +
-            " fields in message '" + message.name + "'");
+            " fields in message '" + message.name + "'", message.line, message.column);
 
     // fields with the same JSON name could not be told apart
     std::unordered_set<std::string> names;
     for (const auto &field : message.fields)
         if (!ctx.number_names && !is_transient(field) && !names.insert(get_json_name(field)).second)
             throw protogen::exception("more than one field with the JSON name '" + get_json_name(field) +
-                "' in message '" + message.name + "'");
+                "' in message '" + message.name + "'", field.line, field.column);
 
     ctx.printer("\n//\n// $1$\n//\n", message.name);
 
@@ -603,7 +603,7 @@ static bool contains( const MessageList &items, const std::shared_ptr<protogen::
 static void sort( MessageList &output, MessageSet &pending, std::shared_ptr<protogen::Message> message )
 {
     if (pending.count(message) > 0)
-        throw exception("circular reference with '" + message->name + "'");
+        throw exception("circular reference with '" + message->name + "'", message->line, message->column);
     if (contains(output, message))
         return; // already processed
 
diff --git a/source/proto3.cc b/source/proto3.cc
index def2528..0b7aac7 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -524,10 +524,10 @@ static OptionEntry parseOption( ProtoContext &ctx )
     // the token 'option' is already consumed at this point
     OptionEntry temp;
 
-    temp.line = ctx.tokens.current.line;
-
     // option name
     ctx.tokens.next();
+    temp.line = ctx.tokens.current.line;
+    temp.column = ctx.tokens.current.column;
     if (ctx.tokens.current.code != TOKEN_NAME && ctx.tokens.current.code != TOKEN_QNAME)
         throw exception("Missing option name", TOKEN_POSITION(ctx.tokens.current));
     temp.name = ctx.tokens.current.value;
@@ -596,6 +596,8 @@ static std::shared_ptr<Message> findMessage( ProtoContext &ctx, const std::strin
 static void parseField( ProtoContext &ctx, Message &message )
 {
     Field field;
+    field.line = ctx.tokens.current.line;
+    field.column = ctx.tokens.current.column;
 
     if (ctx.tokens.current.code == TOKEN_REPEATED)
     {
@@ -698,6 +700,8 @@ static void parseMessage( ProtoContext &ctx )
             auto message = std::make_shared<Message>();
             message->package = ctx.package;
             message->name = ctx.tokens.current.value;
+            message->line = ctx.tokens.current.line;
+            message->column = ctx.tokens.current.column;
             if (findMessage(ctx, message->qualifiedName()) != nullptr)
                 throw exception("Duplicated message '" + message->qualifiedName() + "'", CURRENT_TOKEN_POSITION);
             if (ctx.tokens.next().code != TOKEN_BEGIN)
@@ -806,7 +810,7 @@ void Proto3::parse( std::istream &input, const std::string &fileName )
 
             field.type.ref = findMessage(ctx, field.type.qname);
             if (field.type.ref == nullptr)
-                throw exception("Unable to find message '" + field.type.qname + "'");
+                throw exception("Unable to find message '" + field.type.qname + "'", field.line, field.column);
         }
     }
 }
-- 
2.43.0


From 49dd8bc874621f2062d4a978caba55dde0ddef6f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:59 +0000
Subject: [PATCH 40/46] fix: errors at the end of the file were reported at
 column 0

---
 source/proto3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/proto3.cc b/source/proto3.cc
index 0b7aac7..4e2d8e8 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -209,6 +209,8 @@ template <typename I> class InputStream
             }
             if (cur_ == end_)
             {
+                // the end of the input is after its last character
+                if (last_ != -2) ++column_;
                 last_ = -2;
                 return -1;
             }
-- 
2.43.0


From bc3de3931c513a015f7c277b8d54796ad35d6d24 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:36 +0000
Subject: [PATCH 41/46] fix: the last line of embedded texts without a line
 feed was dropped

---
 source/template.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/template.cc b/source/template.cc
index bf85b1d..6bedd5d 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -11,7 +11,7 @@ void copy( std::istream &input, std::ostream &output, const std::string &name )
     while (!input.eof())
     {
         std::getline(input, line);
-		if (!input.good()) break;
+		if (input.fail()) break;
 
         if (line.length() > 0 && line[0] == '#' && line.find("AUTO-REMOVE") != std::string::npos)
             continue;
@@ -49,7 +49,7 @@ void process( std::istream &input, std::ostream &output, const std::string &guar
     while (!input.eof())
     {
         std::getline(input, line);
-		if (!input.good()) break;
+		if (input.fail()) break;
 
         if (!content)
         {
-- 
2.43.0


From 13120dd9ed2938df0af6549d418c267f68f21ee2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:57 +0000
Subject: [PATCH 42/46] fix: trigraphs in embedded texts were replaced by the
 compiler

---
 source/template.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/template.cc b/source/template.cc
index 6bedd5d..102e8bf 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -30,6 +30,9 @@ void copy( std::istream &input, std::ostream &output, const std::string &name )
             else
             if (c == '\\')
                 output << "\\\\";
+            else
+            if (c == '?') // can be part of trigraphs
+                output << "\\?";
             else
                 output << c;
         }
@@ -74,6 +77,9 @@ void process( std::istream &input, std::ostream &output, const std::string &guar
                 else
                 if (*it == '\\')
                     output << "\\\\";
+                else
+                if (*it == '?') // can be part of trigraphs
+                    output << "\\?";
                 else
                     output << *it;
             }
-- 
2.43.0


From 9515e9344dc0d1431d990191901ead93742a8697 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:17 +0000
Subject: [PATCH 43/46] fix: failures to write embedded texts were not reported

---
 source/template.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/template.cc b/source/template.cc
index 102e8bf..131c0f5 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -126,6 +126,6 @@ int main( int argc, char **argv )
     else
         process(input, output, guard);
 
-
-    return 0;
+    output.close();
+    return input.bad() || !output.good();
 }
\ No newline at end of file
-- 
2.43.0


From a4503656c7927e46d324bb64366735b873e5d8bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:28 +0000
Subject: [PATCH 44/46] fix: files with similar names had the same include
 guard

---
 source/cpp/cppgen.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 8ab701c..72c13a8 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -575,16 +575,22 @@ static void generateMessage( GeneratorContext &ctx, const Message &message )
 
 static std::string makeGuard( const std::string &fileName )
 {
+    static const char *HEX = "0123456789ABCDEF";
+
+    // different file names must have different guards
     std::string out = "GUARD_";
     for (auto it = fileName.begin(); it != fileName.end(); ++it)
     {
         if ( (*it >= 'A' && *it <= 'Z') ||
              (*it >= 'a' && *it <= 'z') ||
-             (*it >= '0' && *it <= '9') ||
-             *it == '_')
+             (*it >= '0' && *it <= '9') )
             out += *it;
         else
+        {
             out += '_';
+            out += HEX[(*it >> 4) & 0x0F];
+            out += HEX[*it & 0x0F];
+        }
     }
     return out;
 }
-- 
2.43.0


From a7211c5e8aa0905b66189bdeeb874928be557abb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:46 +0000
Subject: [PATCH 45/46] fix: line breaks in file names ended the comment that
 shows them

---
 source/cpp/cppgen.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 72c13a8..13a4761 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -677,7 +677,12 @@ static void generateInclusions( GeneratorContext &ctx )
 static void generateModel( GeneratorContext &ctx )
 {
     std::string guard = makeGuard(ctx.root.fileName);
-    ctx.printer(CODE_HEADER, PROTOGEN_VERSION, ctx.root.fileName, guard);
+    // the file name is shown in a comment, which must not end before it
+    std::string source = ctx.root.fileName;
+    for (auto &c : source)
+        if ((unsigned char) c < 0x20)
+            c = '?';
+    ctx.printer(CODE_HEADER, PROTOGEN_VERSION, source, guard);
 
     sort(ctx);
 
-- 
2.43.0


From d20159ae4429358b4ecc86741368e4a67fe4e1ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:10 +0000
Subject: [PATCH 46/46] fix: string fields set by reference did not equal their
 value

---
 source/cpp/json-string.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 1f114ba..61b50ca 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -25,12 +25,12 @@ class string_field
         string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
-        bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const char *that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const value_type &that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const value_type &that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const string_field &that ) const { return this->null_ == that.null_ && this->value_ == that.value_;  }
-        bool operator!=( const string_field &that ) const { return this->null_ != that.null_ || this->value_ != that.value_;  }
+        bool operator==( const char *that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const char *that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const value_type &that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const value_type &that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const string_field &that ) const { return this->empty() == that.empty() && this->value_ == that.value_;  }
+        bool operator!=( const string_field &that ) const { return this->empty() != that.empty() || this->value_ != that.value_;  }
         operator value_type&() { return this->value_; }
         operator const value_type&() const { return this->value_; }
         value_type &operator *() { return this->value_; }
-- 
2.43.0

