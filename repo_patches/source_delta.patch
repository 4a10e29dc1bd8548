From bbb79ff0720cdec2e43f2e288b0bb79296a012b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:49 +0000
Subject: [PATCH 01/57] fix: include <limits> in the runtime library

std::numeric_limits is used by the number code; a generated header that was
the first include of a translation unit did not compile.
---
 source/cpp/protogen.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c330d97..b89a1c6 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -26,6 +26,7 @@
 #include <istream>
 #include <iomanip>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <algorithm>
 #include <cmath>
-- 
2.43.0


From 6c2acbf0e5981555ef6ccc353d7e301fc2358168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:49 +0000
Subject: [PATCH 02/57] fix: make deserialize_array from a character buffer
 compile

It built a mem_iterator<char> from a const buffer, which g++ rejects when the
overload is used and clang++ rejects in every generated header.
---
 source/cpp/json-array.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 005acd2..a15479c 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -107,9 +107,9 @@ bool deserialize_array( T& container, const std::string &in, Parameters *params
 template<typename T, typename std::enable_if<is_container<T>::value, int>::type = 0>
 bool deserialize_array( T& container, const char *in, size_t len, Parameters *params = nullptr )
 {
-    auto begin = mem_iterator<char>(in, len);
-    auto end = mem_iterator<char>(in + len, 0);
-    iterator_istream<mem_iterator<char>> is(begin, end);
+    auto begin = mem_const_iterator<char>(in, len);
+    auto end = mem_const_iterator<char>(in + len, 0);
+    iterator_istream<mem_const_iterator<char>> is(begin, end);
     return deserialize_array(container, is, params);
 }
 
-- 
2.43.0


From dbb355b8f80e65c7cb9061d44e7594d3e96c0cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:49 +0000
Subject: [PATCH 03/57] fix: write to the first position of the output range

iterator_ostream incremented its iterator before writing, so serializing to a
character buffer left the first byte untouched and shifted the output by one.
---
 source/cpp/protogen.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index b89a1c6..61c77cf 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -124,18 +124,19 @@ class iterator_ostream : public ostream
         }
         ostream & operator<<( char value ) override
         {
-            *++beg_ = value;
+            *beg_ = value;
+            ++beg_;
             return *this;
         }
         ostream & operator<<( const std::string &value ) override
         {
             for (auto it = value.begin(); it != value.end(); ++it)
-                *++beg_ = *it;
+                *this << *it;
             return *this;
         }
         ostream & operator<<( const char *value ) override
         {
-            while (*value != 0) *++beg_ = *value++;
+            while (*value != 0) *this << *value++;
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
-- 
2.43.0


From 0ab8b3f0ace13cb6a134ad91fabd2cd9ccd5ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:49 +0000
Subject: [PATCH 04/57] fix: do not drop newlines from the JSON input

The input stream skipped every newline, so '[1\\n2]' was read as [12], 'tr\\nue'
as true, and a newline inside a string vanished.
---
 source/cpp/protogen.hh | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 61c77cf..c22bddc 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -163,7 +163,6 @@ class iterator_istream : public istream
         iterator_istream( const I& first, const I& last ) : beg_(first), end_(last), line_(1),
             column_(1)
         {
-            skip();
         }
         int peek() override
         {
@@ -173,9 +172,14 @@ class iterator_istream : public istream
         void next() override
         {
             if (beg_ == end_) return;
+            if (*beg_ == '\n')
+            {
+                ++line_;
+                column_ = 1;
+            }
+            else
+                ++column_;
             ++beg_;
-            ++column_;
-            skip();
         }
         bool eof() const override { return beg_ == end_; }
         int line() const override { return line_; }
@@ -183,15 +187,6 @@ class iterator_istream : public istream
     protected:
         I beg_, end_;
         int line_, column_;
-        void skip()
-        {
-            while (!(beg_ == end_) && *beg_ == '\n')
-            {
-                ++line_;
-                column_ = 1;
-                ++beg_;
-            }
-        }
 };
 
 template<class T>
-- 
2.43.0


From a6371e5d0394dede8de10fe6deb1adaf7aee5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 05/57] fix: give string tokens their position

An error at a string token was reported at line 0, column 0.
---
 source/cpp/protogen.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c22bddc..9e06ec1 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -411,7 +411,7 @@ class tokenizer
                 if (c == '"')
                 {
                     input_.next();
-                    return token(token_id::STRING, value);
+                    return token(token_id::STRING, value, line, column);
                 }
                 if (c == '\\')
                 {
-- 
2.43.0


From 14365c00582d9fe21e33668cf7379d1d1733e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 06/57] fix: accept \\u escapes of ASCII characters

Escapes from \\u0000 to \\u007f made the document invalid.
---
 source/cpp/protogen.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 9e06ec1..5f12dd0 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -483,6 +483,10 @@ class tokenizer
                 value += (char) (0x80 | (codepoint & 0x3F));
             }
             else
+            // 1-byte UTF-8 = 0xxxxxxx
+            if (codepoint <= 0x7F)
+                value += (char) codepoint;
+            else
             // 2-byte UTF-8 = 110xxxxx 10xxxxxx
             if (codepoint >= 0x80 && codepoint <= 0x7FF)
             {
-- 
2.43.0


From 9fb74a9307986721b2b81934157ab11cdf1ac925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 07/57] fix: reject unpaired lead surrogates in JSON strings

A lead surrogate escape was dropped when nothing followed it and was combined
with a later trail surrogate across other characters.
---
 source/cpp/protogen.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 5f12dd0..8b6726f 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -408,6 +408,9 @@ class tokenizer
             {
                 input_.next();
                 int c = input_.peek();
+                // the lead of a surrogate pair must be followed by another escape
+                if (lead != 0 && c != '\\')
+                    goto ESCAPE;
                 if (c == '"')
                 {
                     input_.next();
@@ -417,6 +420,8 @@ class tokenizer
                 {
                     input_.next();
                     c = input_.peek();
+                    if (lead != 0 && c != 'u')
+                        goto ESCAPE;
                     switch (c)
                     {
                         case '"':  value += '"'; break;
@@ -462,6 +467,8 @@ class tokenizer
             // first value in UTF-16 surrogate pair
             if (codepoint >= 0xD800 && codepoint <= 0xDBFF)
             {
+                if (lead != 0)
+                    return false;
                 lead = codepoint;
                 return true;
             }
@@ -483,6 +490,10 @@ class tokenizer
                 value += (char) (0x80 | (codepoint & 0x3F));
             }
             else
+            // the lead must be followed by the second value
+            if (lead != 0)
+                return false;
+            else
             // 1-byte UTF-8 = 0xxxxxxx
             if (codepoint <= 0x7F)
                 value += (char) codepoint;
-- 
2.43.0


From 68fb37602f4e6eb34bc5c4c893b5de88fb80c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 08/57] fix: escape control characters in JSON strings

They were written as they are, which is not valid JSON; a NUL made the output
unreadable by protogen itself.
---
 source/cpp/json-string.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 7d21daa..54a0286 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -76,7 +76,11 @@ struct json<std::string, void>
                     case '\r': (*ctx.os) <<  "\\r"; break;
                     case '\n': (*ctx.os) <<  "\\n"; break;
                     case '\t': (*ctx.os) <<  "\\t"; break;
-                    default:   (*ctx.os) << (char) byte1;
+                    default:
+                        if (byte1 < 0x20)
+                            write_escaped_utf8(ctx.os, byte1);
+                        else
+                            (*ctx.os) << (char) byte1;
                 }
                 i++;
             }
-- 
2.43.0


From fc5479492591a5de4e3c7dcfc9c5a7656a8fcc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 09/57] fix: refuse overlong, surrogate and out-of-range UTF-8
 under ensure_ascii

They were written as escapes of other characters or of lone surrogates.
---
 source/cpp/json-string.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 54a0286..f84b3ab 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -100,7 +100,7 @@ struct json<std::string, void>
                     return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                 uint8_t byte2 = value[i + 1];
-                if (byte1 >= 0xC0 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
+                if (byte1 >= 0xC2 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x1F) << 6) | (byte2 & 0x3F);
                     write_escaped_utf8(ctx.os, codepoint);
@@ -117,6 +117,9 @@ struct json<std::string, void>
                 if (byte1 >= 0xE0 && byte1 <= 0xEF && i + 2 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x0F) << 12) | ((byte2 & 0x3F) << 6) | (byte3 & 0x3F);
+                    // overlong sequence or surrogate
+                    if (codepoint < 0x800 || (codepoint >= 0xD800 && codepoint <= 0xDFFF))
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
                     write_escaped_utf8(ctx.os, codepoint);
                     i += 3;
                     continue;
@@ -131,6 +134,9 @@ struct json<std::string, void>
                 if (byte1 >= 0xF0 && byte1 <= 0xF4 && i + 3 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80 && (byte4 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x07) << 18) | ((byte2 & 0x3F) << 12) | ((byte3 & 0x3F) << 6) | (byte4 & 0x3F);
+                    // overlong sequence or value out of range
+                    if (codepoint < 0x10000 || codepoint > 0x10FFFF)
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                     // break the codepoint into UTF-16 surrogate pair
                     static const uint32_t LEAD_OFFSET = 0xD800 - (0x10000 >> 10);
-- 
2.43.0


From d4ad08dcd34b52884e3b88440b2aa9760d3631d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 10/57] fix: read a null string as absent

It became a present, empty string.
---
 source/cpp/json-string.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index f84b3ab..31ef7fd 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -167,10 +167,12 @@ struct json<string_field, void>
     static int read( json_context &ctx, string_field &value )
     {
         std::string temp;
-        temp.clear();
         int result = json<std::string, void>::read(ctx, temp);
-        value.empty(result == PGR_NIL);
-        value = temp;
+        if (result == PGR_NIL)
+            value.clear();
+        else
+        if (result == PGR_OK)
+            value = temp;
         return result;
     }
     static int write( json_context &ctx, const string_field &value )
-- 
2.43.0


From cf07b13530b7ca71283100b0d197cdd8cab16c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 11/57] fix: transfer absence when assigning fields

Assigning an absent field kept the old value underneath: the two fields
compared unequal, and a string was still serialized.
---
 source/cpp/json-number.hh | 2 +-
 source/cpp/json-string.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index b03d57e..5ae3c5d 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -20,7 +20,7 @@ template<typename T> class field
         void swap( T &that ) { std::swap(this->value_, that); empty_ = false; }
         bool empty() const { return empty_; }
         void clear() { value_ = (T) 0; empty_ = true; }
-        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; if (!empty_) this->value_ = that.value_; return *this; }
+        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; this->value_ = that.value_; return *this; }
         field<T> &operator=( const T &that ) { this->empty_ = false; this->value_ = that; return *this; }
         bool operator==( const T &that ) const { return !this->empty_ && this->value_ == that; }
         bool operator!=( const T &that ) const { return !this->empty_ && this->value_ != that; }
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 31ef7fd..231d17d 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -22,7 +22,7 @@ class string_field
         bool empty() const { return null_ && value_.empty(); }
         void empty(bool state) { null_ = state; if (state) value_.clear(); }
         void clear() { value_.clear(); null_ = true; }
-        string_field &operator=( const string_field &that ) { this->null_ = that.null_; if (!null_) this->value_ = that.value_; return *this; }
+        string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
         bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-- 
2.43.0


From 702a16da854c46bbb964ee28a177c7570a06193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 12/57] fix: compare string fields by what empty() reports

A field filled through operator* is present for empty() and serialize() but
did not compare equal to the same text.
---
 source/cpp/json-string.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 231d17d..1085564 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -25,12 +25,12 @@ class string_field
         string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
-        bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const char *that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const value_type &that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const value_type &that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const string_field &that ) const { return this->null_ == that.null_ && this->value_ == that.value_;  }
-        bool operator!=( const string_field &that ) const { return this->null_ != that.null_ || this->value_ != that.value_;  }
+        bool operator==( const char *that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const char *that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const value_type &that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const value_type &that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const string_field &that ) const { return this->empty() == that.empty() && this->value_ == that.value_;  }
+        bool operator!=( const string_field &that ) const { return this->empty() != that.empty() || this->value_ != that.value_;  }
         operator value_type&() { return this->value_; }
         operator const value_type&() const { return this->value_; }
         value_type &operator *() { return this->value_; }
-- 
2.43.0


From e02b4358b6c8485a3a41f674d69290cdae7014ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 13/57] fix: report failures to serialize a field

The generated code and the array writer dropped the result of writing a value,
so invalid UTF-8 under ensure_ascii gave malformed JSON and success.
---
 source/cpp/code.txt      | 2 +-
 source/cpp/json-array.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index ec525ea..dd92e98 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -102,7 +102,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__WRITE__ITEM
-        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; json<decltype(value.$1$)>::write(ctx, value.$1$); f=false; }
+        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; if (json<decltype(value.$1$)>::write(ctx, value.$1$) != PGR_OK) return PGR_ERROR; f=false; }
 ------
 
 --- CODE_JSON__WRITE__FOOTER
diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index a15479c..d007117 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -65,7 +65,7 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         size_t i = 0, t = value.size();
         for (auto it = value.begin(); it != value.end(); ++it, ++i)
         {
-            json<typename T::value_type>::write(ctx, *it);
+            if (json<typename T::value_type>::write(ctx, *it) != PGR_OK) return PGR_ERROR;
             if (i + 1 < t) (*ctx.os) <<  ',';
         }
         (*ctx.os) <<  ']';
-- 
2.43.0


From ab5714fbd0e9fc51f12089be7fd971f54fbe6716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 14/57] fix: skip null array elements

They are meant to be skipped, but the null token was never consumed, so the
array was rejected.
---
 source/cpp/json-array.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index d007117..4ca7a60 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -48,6 +48,7 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
                 int result = json<typename T::value_type>::read(ctx, temp);
                 if (result == PGR_ERROR) return result;
                 if (result == PGR_OK) value.push_back(temp);
+                if (result == PGR_NIL) ctx.tok->next();
 
                 if (!ctx.tok->expect(token_id::COMMA))
                 {
-- 
2.43.0


From 34d6df9f986e4c36322db11d0aa980a8214939b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 15/57] fix: include the base64 code for every schema with a
 bytes field

It was included only for 'repeated bytes'. A schema with a plain bytes field was
serialized as an array of numbers, or did not compile.
---
 source/cpp/cppgen.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 74fb78b..fea5393 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -547,11 +547,9 @@ static void generateInclusions( GeneratorContext &ctx )
         for (const auto &field : message->fields)
         {
             if (field.type.repeated)
-            {
-                if (field.type.id == protogen::TYPE_BYTES)
-                    has_base64 = true;
                 has_array = true;
-            }
+            if (field.type.id == protogen::TYPE_BYTES)
+                has_base64 = true;
             if (field.type.id == protogen::TYPE_STRING)
                 has_string = true;
             else
-- 
2.43.0


From 04f3c11d2e2b543e20d70f6f54d2b6820c66189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 16/57] fix: make 'repeated bytes' a sequence of byte strings

The 'repeated' was ignored.
---
 source/cpp/cppgen.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index fea5393..4c7d7cd 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -131,7 +131,10 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         valueType += "::string_field";
     }
     else
-    if (field.type.id >= protogen::TYPE_DOUBLE && field.type.id <= protogen::TYPE_BYTES)
+    if (field.type.id == protogen::TYPE_BYTES)
+        valueType = "std::vector<uint8_t>";
+    else
+    if (field.type.id >= protogen::TYPE_DOUBLE && field.type.id < protogen::TYPE_BYTES)
     {
         int index = (int)field.type.id - (int)protogen::TYPE_DOUBLE;
         valueType = TYPE_MAPPING[index].nativeType;
@@ -142,10 +145,10 @@ static std::string fieldNativeType( const Field &field, bool useLists )
     else
         throw protogen::exception("Invalid field type");
 
-    if (field.type.repeated || field.type.id == protogen::TYPE_BYTES)
+    if (field.type.repeated)
     {
         std::string output = "std::";
-        if (field.type.id == protogen::TYPE_BYTES || !useLists)
+        if (!useLists)
             output += "vector<";
         else
             output += "list<";
@@ -153,7 +156,7 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         output += '>';
         return output;
     }
-    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING)
+    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING || field.type.id == protogen::TYPE_BYTES)
         return valueType;
     else
     {
-- 
2.43.0


From 05437e9f7fb5c39ca1c1de345405fc6e73a39081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 17/57] fix: reject text that is not base64 in bytes fields

Foreign characters were decoded as zeros, misplaced padding as data, and a
truncated text was accepted up to its last complete group.
---
 source/cpp/json-base64.hh | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/source/cpp/json-base64.hh b/source/cpp/json-base64.hh
index 78226c3..b254d55 100644
--- a/source/cpp/json-base64.hh
+++ b/source/cpp/json-base64.hh
@@ -19,7 +19,7 @@ struct json< std::vector<uint8_t> >
         if (ch >= 'A' && ch <= 'Z') return ch - 'A';
         if (ch >= 'a' && ch <= 'z') return (ch - 'a') + 26;
         if (ch == '=') return 64;
-        return 0;
+        return -1;
     }
     static int write( json_context &ctx, const std::vector<uint8_t> &value )
     {
@@ -57,47 +57,44 @@ struct json< std::vector<uint8_t> >
         (*ctx.os) <<  '"';
         return PGR_OK;
     }
-    static int read( json_context &ctx, std::vector<uint8_t> &value )
+    static int read( json_context &ctx, std::vector<uint8_t> &output )
     {
         if (ctx.tok->peek().id == token_id::NIL) return PGR_NIL;
         if (ctx.tok->peek().id != token_id::STRING)
             return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid string");
 
-        size_t k = 0;
         int s[4];
         std::string text = ctx.tok->peek().value;
-        ctx.tok->next();
-        const char *ptr = text.c_str();
+        std::vector<uint8_t> value;
+
+        if (text.length() % 4 != 0)
+            return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
 
-        while (true)
+        for (size_t i = 0; i < text.length(); i += 4)
         {
             // read 4 characters
             for (size_t j = 0; j < 4; ++j)
             {
-                int ch = *ptr++;
-                if (ch == 0)
-                {
-                    if (j != 0) ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
-                    return PGR_OK;
-                }
-                s[j] = b64_int(ch);
+                s[j] = b64_int(text[i + j]);
+                // the padding can appear only in the end
+                bool padding = s[j] == 64 && j >= 2 && i + 4 == text.length();
+                if (s[j] < 0 || (s[j] == 64 && !padding))
+                    return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
             }
+            if (s[2] == 64 && s[3] != 64)
+                return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
             // decode base64 tuple
             value.push_back( (uint8_t) (((s[0] & 0xFF) << 2 ) | ((s[1] & 0x30) >> 4)) );
             if (s[2] != 64)
             {
                 value.push_back( (uint8_t) (((s[1] & 0x0F) << 4) | ((s[2] & 0x3C) >> 2)) );
                 if ((s[3]!=64))
-                {
                     value.push_back( (uint8_t) (((s[2] & 0x03) << 6) | s[3]) );
-                    k+=3;
-                }
-                else
-                    k+=2;
             }
-            else
-                k+=1;
         }
+        ctx.tok->next();
+        output.swap(value);
+        return PGR_OK;
     }
     static bool empty( const std::vector<uint8_t> &value ) { return value.empty(); }
     static void clear( std::vector<uint8_t> &value ) { value.clear(); }
-- 
2.43.0


From 1f84a8e9fb4c91ce91a1f54542ea85e560f105af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 18/57] fix: write floating-point numbers with the digits they
 need

"%f" kept six decimals, so small numbers became zero and most values changed
on a round trip. Values that are not finite are written as null instead of text
that is not JSON.
---
 source/cpp/json-number.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 5ae3c5d..fd7f2f7 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -75,17 +75,25 @@ T string_to_number( const std::string &text )
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 std::string number_to_string( const T &value )
 {
+    // there is no JSON number for these values
+    if (!std::isfinite(value)) return "null";
     char tmp[320] = {0};
+    // use as many digits as necessary to get the same value back
+    int precision = std::numeric_limits<T>::digits10;
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return "0";
-    _snprintf_l(tmp, sizeof(tmp) - 1, "%f", loc, value);
+    do
+        _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, precision, value);
+    while (string_to_number<T>(tmp) != value && ++precision <= std::numeric_limits<T>::max_digits10);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return "0";
     locale_t old = uselocale(loc);
     if (old == 0) return "0";
-    snprintf(tmp, sizeof(tmp) - 1, "%f", value);
+    do
+        snprintf(tmp, sizeof(tmp) - 1, "%.*g", precision, value);
+    while (string_to_number<T>(tmp) != value && ++precision <= std::numeric_limits<T>::max_digits10);
     uselocale(old);
 #endif
     tmp[sizeof(tmp) - 1] = 0;
-- 
2.43.0


From 1d2959b41b2d36b3d8875c36e0d53534fa18dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 19/57] fix: reject malformed JSON numbers

Any sequence of digits, signs, dots and exponent letters was accepted.
---
 source/cpp/protogen.hh | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 8b6726f..1e10fd0 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -531,7 +531,37 @@ class tokenizer
             return true;
         }
 
-        token parse_number() // TODO ensure number syntax according to RFC-4627 section 2.4
+        // check the number syntax according to RFC-8259 section 6
+        static bool is_number( const std::string &text )
+        {
+            auto it = text.begin();
+            auto end = text.end();
+            auto digits = [&it, end]()
+            {
+                auto first = it;
+                while (it != end && *it >= '0' && *it <= '9') ++it;
+                return it != first;
+            };
+
+            if (it != end && *it == '-') ++it;
+            if (it != end && *it == '0') ++it;
+            else
+            if (!digits()) return false;
+            if (it != end && *it == '.')
+            {
+                ++it;
+                if (!digits()) return false;
+            }
+            if (it != end && (*it == 'e' || *it == 'E'))
+            {
+                ++it;
+                if (it != end && (*it == '+' || *it == '-')) ++it;
+                if (!digits()) return false;
+            }
+            return it == end;
+        }
+
+        token parse_number()
         {
             std::string value;
             int line = input_.line();
@@ -547,6 +577,8 @@ class tokenizer
                 else
                     break;
             }
+            if (!is_number(value))
+                return token(token_id::NONE, "", line, column);
             return token(token_id::NUMBER, value, line, column);
         }
 
-- 
2.43.0


From 799fbd6ca452b0c4641a531457289743235d2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 20/57] fix: reject numbers that the field type cannot
 represent

Out-of-range numbers wrapped around or became infinite, and an integer field
kept the digits before the first dot or exponent: 1.5 and 1e3 were both read
as 1. Integral values are now accepted in any notation (1e3 is 1000) and
everything else is an error.
---
 source/cpp/json-number.hh | 87 ++++++++++++++++++++++++++++++---------
 source/cpp/protogen.hh    |  2 +
 2 files changed, 69 insertions(+), 20 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index fd7f2f7..e19eca8 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -29,47 +29,92 @@ template<typename T> class field
         operator T() const { return this->value_; }
 };
 
+// Converts a JSON number to a floating-point value. Fails if the value is out of range.
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
-static T string_to_number( const std::string &text )
+static bool string_to_number( const std::string &text, T &output )
 {
     double value;
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
-    if (loc == nullptr) return 0;
+    if (loc == nullptr) return false;
     value = _strtod_l(text.c_str(), nullptr, loc);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
-    if (loc == 0) return 0;
+    if (loc == 0) return false;
 #ifdef __USE_GNU
     value = strtod_l(text.c_str(), nullptr, loc);
 #else
     locale_t old = uselocale(loc);
-    if (old == 0) return 0;
+    if (old == 0) return false;
     value = strtod(text.c_str(), nullptr);
     uselocale(old);
 #endif
 #endif
-    return static_cast<T>(value);
+    output = static_cast<T>(value);
+    return std::isfinite(output);
 }
 
+// Rewrites a JSON number as an optional minus sign followed by digits only. Fails if
+// the number has a fractional part or more digits than any 64-bit integer.
+static inline bool integer_digits( const std::string &text, std::string &output )
+{
+    bool negative = text[0] == '-';
+    size_t pos = text.find_first_of("eE");
+    std::string digits = text.substr(negative, pos == std::string::npos ? pos : pos - negative);
+    long exponent = 0;
+    if (pos != std::string::npos)
+        exponent = std::max(-0x10000000L, std::min(0x10000000L, strtol(text.c_str() + pos + 1, nullptr, 10)));
+    // remove the decimal point and the zeros around the significant digits
+    pos = digits.find('.');
+    if (pos != std::string::npos)
+    {
+        exponent -= (long) (digits.length() - pos - 1);
+        digits.erase(pos, 1);
+    }
+    digits.erase(0, std::min(digits.find_first_not_of('0'), digits.length()));
+    while (!digits.empty() && digits.back() == '0')
+    {
+        digits.pop_back();
+        ++exponent;
+    }
+    if (digits.empty())
+    {
+        output = "0";
+        return true;
+    }
+    if (exponent < 0 || exponent > 20) return false;
+    output = negative ? "-" : "";
+    output += digits;
+    output.append((size_t) exponent, '0');
+    return true;
+}
+
+// Converts a JSON number to a signed integer. Fails if the value has a fractional part or is out of range.
 template<typename T, typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value, int>::type = 0>
-T string_to_number( const std::string &text )
+bool string_to_number( const std::string &text, T &output )
 {
-#if defined(_WIN32) || defined(_WIN64)
-    return static_cast<T>( _strtoi64(text.c_str(), nullptr, 10) );
-#else
-    return static_cast<T>( strtol(text.c_str(), nullptr, 10) );
-#endif
+    std::string digits;
+    if (!integer_digits(text, digits)) return false;
+    errno = 0;
+    long long value = strtoll(digits.c_str(), nullptr, 10);
+    if (errno == ERANGE || value < std::numeric_limits<T>::min() || value > std::numeric_limits<T>::max())
+        return false;
+    output = static_cast<T>(value);
+    return true;
 }
 
+// Converts a JSON number to an unsigned integer. Fails if the value has a fractional part or is out of range.
 template<typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_signed<T>::value, int>::type = 0>
-T string_to_number( const std::string &text )
+bool string_to_number( const std::string &text, T &output )
 {
-#if defined(_WIN32) || defined(_WIN64)
-    return static_cast<T>( _strtoui64(text.c_str(), nullptr, 10) );
-#else
-    return static_cast<T>( strtoul(text.c_str(), nullptr, 10) );
-#endif
+    std::string digits;
+    if (!integer_digits(text, digits) || digits[0] == '-') return false;
+    errno = 0;
+    unsigned long long value = strtoull(digits.c_str(), nullptr, 10);
+    if (errno == ERANGE || value > std::numeric_limits<T>::max())
+        return false;
+    output = static_cast<T>(value);
+    return true;
 }
 
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
@@ -80,12 +125,13 @@ std::string number_to_string( const T &value )
     char tmp[320] = {0};
     // use as many digits as necessary to get the same value back
     int precision = std::numeric_limits<T>::digits10;
+    T temp;
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return "0";
     do
         _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, precision, value);
-    while (string_to_number<T>(tmp) != value && ++precision <= std::numeric_limits<T>::max_digits10);
+    while ((!string_to_number<T>(tmp, temp) || temp != value) && ++precision <= std::numeric_limits<T>::max_digits10);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return "0";
@@ -93,7 +139,7 @@ std::string number_to_string( const T &value )
     if (old == 0) return "0";
     do
         snprintf(tmp, sizeof(tmp) - 1, "%.*g", precision, value);
-    while (string_to_number<T>(tmp) != value && ++precision <= std::numeric_limits<T>::max_digits10);
+    while ((!string_to_number<T>(tmp, temp) || temp != value) && ++precision <= std::numeric_limits<T>::max_digits10);
     uselocale(old);
 #endif
     tmp[sizeof(tmp) - 1] = 0;
@@ -156,7 +202,8 @@ struct json<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
         if (tt.id == token_id::NIL) return PGR_NIL;
         if (tt.id != token_id::NUMBER)
             return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid numeric value");
-        value = string_to_number<T>(tt.value);
+        if (!string_to_number<T>(tt.value, value))
+            return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "the field type cannot represent this number");
         ctx.tok->next();
         return PGR_OK;
     }
diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 1e10fd0..7ae0432 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -18,6 +18,8 @@
 #define PROTOGEN_X_Y_Z
 
 #include <string>
+#include <cerrno>
+#include <cstdlib>
 #include <cstring>
 #include <sstream>
 #include <vector>
-- 
2.43.0


From 2a2cbc601e99f7453dad5426c31769a4a77510fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 21/57] fix: skip unknown values without recursion

The recursion depth was decided by the input: a deeply nested unknown value
overflowed the stack. The loop also stops accepting a comma before the closing
bracket, which is not valid JSON.
---
 source/cpp/protogen.hh | 94 ++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 55 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 7ae0432..5f9b4b3 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -584,66 +584,50 @@ class tokenizer
             return token(token_id::NUMBER, value, line, column);
         }
 
-        int ignore_array()
-        {
-            if (!expect(token_id::ARRS))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
-
-            while (peek().id != token_id::ARRE)
-            {
-                int result = ignore_value();
-                if (result != PGERR_OK) return result;
-                if (!expect(token_id::COMMA)) break;
-            }
-            if (!expect(token_id::ARRE))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
-            return PGR_OK;
-        }
-
-        int ignore_object()
-        {
-            if (!expect(token_id::OBJS))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
-
-            while (peek().id != token_id::OBJE)
-            {
-                if (!expect(token_id::STRING))
-                    return error(error_code::PGERR_IGNORE_FAILED, "expected field name");
-                if (!expect(token_id::COLON))
-                    return error(error_code::PGERR_IGNORE_FAILED, "expected colon");
-                int result = ignore_value();
-                if (result != PGERR_OK) return result;
-                if (!expect(token_id::COMMA)) break;
-            }
-            if (!expect(token_id::OBJE))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
-            return PGR_OK;
-        }
-
+        // Skips the current value. The open arrays and objects are kept in an explicit
+        // stack because the nesting depth is up to the input.
         int ignore_value()
         {
-            switch (peek().id)
+            std::vector<token_id> open; // closing tokens
+            while (true)
             {
-                case token_id::NONE:
-                case token_id::EOS:
-                    return error(error_code::PGERR_IGNORE_FAILED, "end of stream");
-                case token_id::OBJS:
-                    return ignore_object();
-                case token_id::ARRS:
-                    return ignore_array();
-                case token_id::STRING:
-                case token_id::NUMBER:
-                case token_id::NIL:
-                case token_id::BTRUE:
-                case token_id::BFALSE:
+                if (!open.empty() && open.back() == token_id::OBJE)
                 {
-                    auto tt = next();
-                    if (tt.id == token_id::NONE || tt.id == token_id::EOS)
-                        return error(PGERR_IGNORE_FAILED, "end of stream");
-                    return PGERR_OK;
+                    if (!expect(token_id::STRING))
+                        return error(error_code::PGERR_IGNORE_FAILED, "expected field name");
+                    if (!expect(token_id::COLON))
+                        return error(error_code::PGERR_IGNORE_FAILED, "expected colon");
+                }
+                switch (peek().id)
+                {
+                    case token_id::NONE:
+                    case token_id::EOS:
+                        return error(error_code::PGERR_IGNORE_FAILED, "end of stream");
+                    case token_id::OBJS:
+                    case token_id::ARRS:
+                        open.push_back(peek().id == token_id::OBJS ? token_id::OBJE : token_id::ARRE);
+                        if (next().id != open.back()) continue;
+                        break;
+                    case token_id::STRING:
+                    case token_id::NUMBER:
+                    case token_id::NIL:
+                    case token_id::BTRUE:
+                    case token_id::BFALSE:
+                    {
+                        auto tt = next();
+                        if (tt.id == token_id::NONE || tt.id == token_id::EOS)
+                            return error(PGERR_IGNORE_FAILED, "end of stream");
+                        break;
+                    }
+                    default:
+                        return error(error_code::PGERR_IGNORE_FAILED, "invalid value");
                 }
-                default:
-                    return error(error_code::PGERR_IGNORE_FAILED, "invalid value");
+                while (!open.empty() && expect(open.back()))
+                    open.pop_back();
+                if (open.empty()) return PGR_OK;
+                if (!expect(token_id::COMMA))
+                    return error(error_code::PGERR_IGNORE_FAILED,
+                        open.back() == token_id::OBJE ? "invalid object" : "invalid array");
             }
         }
 };
-- 
2.43.0


From c02f1e8d74b0cb2ce333103260c93d94a0387be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 22/57] fix: report an error for a null document

Deserializing 'null' failed with the error code still saying OK.
---
 source/cpp/json-array.hh | 2 ++
 source/cpp/json.hh       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 4ca7a60..39d7d11 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -94,6 +94,8 @@ bool deserialize_array( T& container, protogen_X_Y_Z::istream& in, protogen_X_Y_
     ctx.tok = &tok;
     int result = json<T>::read(ctx, container);
     if (result == protogen_X_Y_Z::PGR_OK) return true;
+    if (result == protogen_X_Y_Z::PGR_NIL)
+        tok.error(protogen_X_Y_Z::PGERR_INVALID_ARRAY, "invalid array");
     if (params != nullptr) params->error = std::move(ctx.params.error);
     return false;
 }
diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index 194155e..4585b95 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -82,6 +82,8 @@ static int read_object( json_context &ctx, T &object )
             ctx.tok = &tok; \
             int result = S::read(ctx, *this); \
             if (result == protogen_X_Y_Z::PGR_OK) return true; \
+            if (result == protogen_X_Y_Z::PGR_NIL) \
+                tok.error(protogen_X_Y_Z::PGERR_INVALID_OBJECT, "objects must start with '{'"); \
             if (params != nullptr) params->error = std::move(ctx.params.error); \
             return false; \
         } \
-- 
2.43.0


From c633bdd51e1595fd207d913cb28fd9491eba2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 23/57] fix: fail when the output buffer is too small

The output was truncated and success reported.
---
 source/cpp/protogen.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 5f9b4b3..61b3c81 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -712,11 +712,17 @@ struct message
         return serialize(os, params);
     }
 
-    virtual bool serialize( char *in, size_t len, Parameters *params = nullptr )
+    virtual bool serialize( char *out, size_t len, Parameters *params = nullptr )
     {
-        auto begin = mem_iterator<char>(in, len);
-        iterator_ostream<mem_iterator<char>> os(begin);
-        return serialize(os, params);
+        std::string temp;
+        if (!serialize(temp, params)) return false;
+        if (temp.length() > len)
+        {
+            if (params != nullptr) params->error = ErrorInfo(error_code::PGERR_INVALID_VALUE, "output buffer is too small", 0, 0);
+            return false;
+        }
+        temp.copy(out, temp.length());
+        return true;
     }
 
     virtual bool serialize( std::vector<char> &out, Parameters *params = nullptr ) const
-- 
2.43.0


From dcbcd63a2e3a898f2c8b5c53cd472b45e8673400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 24/57] fix: end a line comment at the end of the schema

A schema whose last line is a comment without a newline made the compiler loop
forever, allocating memory.
---
 source/proto3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 384b833..dad1499 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -382,7 +382,7 @@ template <typename I> class Tokenizer
 
             if (cur == '/')
             {
-                while ((cur = is.get()) != '\n') temp.value += (char) cur;
+                while ((cur = is.get()) != '\n' && cur >= 0) temp.value += (char) cur;
                 return temp;
             }
             else
-- 
2.43.0


From 7b1c9c18c514729b06faae22ad59645f966f5eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 25/57] fix: report unterminated strings in the schema

At the end of the file the compiler looped forever, allocating memory; at the
end of a line the string counted as the end of the file, so the rest of the
schema could be silently ignored.
---
 source/proto3.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index dad1499..be11223 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -473,7 +473,8 @@ template <typename I> class Tokenizer
             do
             {
                 int cur = is.get();
-                if (cur == '\n' || cur == 0) return Token();
+                if (cur == '\n' || cur <= 0)
+                    throw exception("Unterminated string", line, column);
                 if (cur == '"') return tt;
                 tt.value += (char) cur;
             } while (true);
-- 
2.43.0


From 4b0ea07f6b1d52e7fb0584be336c2c4d3c230be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 26/57] fix: report stray slashes and unterminated comments in
 the schema

A slash was discarded together with the character after it, and an unterminated
comment silently hid the rest of the schema.
---
 source/proto3.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index be11223..6f12e25 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -327,7 +327,7 @@ template <typename I> class Tokenizer
                 else
                 if (cur == '/')
                 {
-                    comment(); //discarding
+                    comment(line, column); //discarding
                     continue;
                 }
                 else
@@ -375,7 +375,7 @@ template <typename I> class Tokenizer
     private:
         InputStream<I> &is;
 
-        Token comment()
+        Token comment( int line = 1, int column = 1 )
         {
             Token temp(TOKEN_COMMENT, "");
             int cur = is.get();
@@ -392,12 +392,12 @@ template <typename I> class Tokenizer
                 {
                     cur = is.get();
                     if (cur == '*' && is.expect('/')) return temp;
-                    if (cur < 0) return Token();
+                    if (cur < 0) throw exception("Unterminated comment", line, column);
                     temp.value += (char) cur;
                 }
             }
 
-            return Token();
+            throw exception("Invalid symbol", line, column);
         }
 
         Token qname( int line = 1, int column = 1 )
-- 
2.43.0


From ff004d7acc2b0ce260eaf0ffa1090cfc9f6fcb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 27/57] fix: report a message without its closing brace

A schema truncated inside a message was accepted.
---
 source/proto3.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 6f12e25..7a52fdd 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -701,10 +701,10 @@ static void parseMessage( ProtoContext &ctx )
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
-            while (ctx.tokens.next().code != TOKEN_EOF)
+            while (ctx.tokens.next().code != TOKEN_END)
             {
-                if (ctx.tokens.current.code == TOKEN_END)
-                    break;
+                if (ctx.tokens.current.code == TOKEN_EOF)
+                    throw exception("Unterminated message", CURRENT_TOKEN_POSITION);
                 if (ctx.tokens.current.code == TOKEN_OPTION)
                     parseStandardOption(ctx, message->options);
                 else
-- 
2.43.0


From bc1f6cc98bfc3701a4bdd69d1a184e3940416552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 28/57] fix: check field numbers as the proto3 specification
 says

Only the two ends of the reserved range were rejected, the largest valid number
was rejected, and large numbers were accepted after wrapping around.
---
 source/proto3.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 7a52fdd..0561c40 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -660,10 +660,11 @@ static void parseField( ProtoContext &ctx, Message &message )
     // index
     if (ctx.tokens.next().code != TOKEN_INTEGER)
         throw exception("Missing field index", TOKEN_POSITION(ctx.tokens.current));
-    field.index = (int) strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
+    long index = strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
     // https://protobuf.dev/programming-guides/proto3/#assigning
-    if (field.index <= 0 || field.index >= 0x1FFFFFFF || field.index == 0x4E1F || field.index == 0x4A38)
+    if (index <= 0 || index > 0x1FFFFFFF || (index >= 19000 && index <= 19999))
         throw exception("Invalid field index", TOKEN_POSITION(ctx.tokens.current));
+    field.index = (int) index;
 
     ctx.tokens.next();
 
-- 
2.43.0


From a89a1efb50b68daf24d94c0cb4089b44db2d4af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 29/57] fix: reject repeated field and message names

They gave a header that does not compile.
---
 source/proto3.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 0561c40..045919f 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -681,10 +681,14 @@ static void parseField( ProtoContext &ctx, Message &message )
     if (ctx.tokens.current.code != TOKEN_SCOLON)
         throw exception("Expected ';'", TOKEN_POSITION(ctx.tokens.current));
 
-    // check for repeated field indices
+    // check for repeated field indices and names
     for (auto it = message.fields.begin(); it != message.fields.end(); it++)
+    {
         if (it->index == field.index)
             throw exception("Field '" + it->name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
+        if (it->name == field.name)
+            throw exception("Field '" + it->name + "' already exists in the message '" + message.name + "'", CURRENT_TOKEN_POSITION);
+    }
 
     message.fields.push_back(field);
 }
@@ -699,6 +703,8 @@ static void parseMessage( ProtoContext &ctx )
             auto message = std::make_shared<Message>();
             message->package = ctx.package;
             message->name = ctx.tokens.current.value;
+            if (findMessage(ctx, message->qualifiedName()) != nullptr)
+                throw exception("Message '" + message->qualifiedName() + "' already exists", CURRENT_TOKEN_POSITION);
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
-- 
2.43.0


From e7215a0c1df5b6bf9b2766395b61bd1ba3ec7d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 30/57] fix: resolve package-qualified type names

The package was prepended to every type name, so a name that already had it
(phonebook.Person) was never found.
---
 source/proto3.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 045919f..eb2074a 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -597,6 +597,20 @@ static std::shared_ptr<Message> findMessage( ProtoContext &ctx, const std::strin
 }
 
 
+// Finds the message denoted by a type name used inside the given package, looking
+// from the innermost package to the outermost.
+static std::shared_ptr<Message> findType( ProtoContext &ctx, std::string package, const std::string &name )
+{
+    while (true)
+    {
+        auto message = findMessage(ctx, package.empty() ? name : package + '.' + name);
+        if (message != nullptr || package.empty()) return message;
+        auto pos = package.rfind('.');
+        package.erase(pos == std::string::npos ? 0 : pos);
+    }
+}
+
+
 static void parseField( ProtoContext &ctx, Message &message )
 {
     Field field;
@@ -620,13 +634,7 @@ static void parseField( ProtoContext &ctx, Message &message )
     if (ctx.tokens.current.code == TOKEN_NAME || ctx.tokens.current.code == TOKEN_QNAME)
     {
         field.type.id = (FieldType) TOKEN_T_MESSAGE;
-        if (!message.package.empty())
-        {
-            field.type.qname += message.package;
-            field.type.qname += '.';
-        }
-        field.type.qname += ctx.tokens.current.value;
-        field.type.ref = findMessage(ctx, field.type.qname);
+        field.type.qname = ctx.tokens.current.value;
     }
 # if 0
     else
@@ -809,9 +817,10 @@ void Proto3::parse( std::istream &input, const std::string &fileName )
             if (field.type.id != TYPE_MESSAGE || field.type.ref != nullptr)
                 continue;
 
-            field.type.ref = findMessage(ctx, field.type.qname);
+            field.type.ref = findType(ctx, message->package, field.type.qname);
             if (field.type.ref == nullptr)
                 throw exception("Unable to find message '" + field.type.qname + "'");
+            field.type.qname = field.type.ref->qualifiedName();
         }
     }
 }
-- 
2.43.0


From 1f22e51bed72292b38011fbffd1b53c4f2a2f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 31/57] fix: do not truncate obfuscated names

A character of the name equal to the mask (the 'r' of 'price') became a NUL, which
ended the string, so the JSON name was garbage.
---
 source/cpp/code.txt  | 2 +-
 source/cpp/cppgen.cc | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index dd92e98..0180c06 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -230,7 +230,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__INDEX__ITEM
-            {"$1$", $2$},
+            {$1$, $2$},
 ------
 
 --- CODE_JSON__INDEX__FOOTER
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 4c7d7cd..090bfc9 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -305,7 +305,7 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = Printer::format("reveal(\"$1$\")", obfuscate(label));
+            label = Printer::format("reveal(std::string(\"$1$\", $2$))", obfuscate(label), label.length());
         else
             label = Printer::format("\"$1$\"", label);
 
@@ -418,7 +418,9 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = obfuscate(label);
+            label = Printer::format("std::string(\"$1$\", $2$)", obfuscate(label), label.length());
+        else
+            label = Printer::format("\"$1$\"", label);
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
-- 
2.43.0


From bda30486c091c1e61e0a4fca493b02618bf48b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 32/57] fix: reject backslashes and control characters in JSON
 names

They were copied into C++ string literals and JSON strings without escaping.
---
 source/cpp/cppgen.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 090bfc9..69206c7 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -257,8 +257,8 @@ static std::string get_json_name( const Field &field )
 {
     auto name = get_option(field.options, PROTOGEN_O_NAME, field.name);
     for (auto c : name)
-        if (c == '\'' || c == '"')
-            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes", 1, 1);
+        if (c == '\'' || c == '"' || c == '\\' || (c >= 0 && c < 0x20))
+            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes, backslashes or control characters", 1, 1);
     return name;
 }
 
-- 
2.43.0


From e98ca2651f38e57f217f8612a7a77b1f94c10160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 33/57] fix: reject fields that share a JSON name

Both were written under the same name and only one of them was read.
---
 source/cpp/cppgen.cc | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 69206c7..afeb77a 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -262,6 +262,25 @@ static std::string get_json_name( const Field &field )
     return name;
 }
 
+static std::string get_label( const GeneratorContext &ctx, const Field &field )
+{
+    auto name = get_json_name(field);
+    return ctx.number_names ? std::to_string(field.index) : name;
+}
+
+static void check_labels( const GeneratorContext &ctx, const Message &message )
+{
+    std::unordered_set<std::string> labels;
+    for (const auto &field : message.fields)
+    {
+        if (is_transient(field))
+            continue;
+        auto label = get_label(ctx, field);
+        if (!labels.insert(label).second)
+            throw exception("message '" + message.name + "' has more than one field with the JSON name '" + label + "'");
+    }
+}
+
 static void generate_function__read_field( GeneratorContext &ctx, const Message &message, const std::string &typeName,
     bool is_persistent )
 {
@@ -301,9 +320,7 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
     {
         if (is_transient(field))
             continue;
-        auto name = get_json_name(field);
-
-        std::string label = ctx.number_names ? std::to_string(field.index) : name;
+        std::string label = get_label(ctx, field);
         if (ctx.obfuscate_strings)
             label = Printer::format("reveal(std::string(\"$1$\", $2$))", obfuscate(label), label.length());
         else
@@ -414,9 +431,7 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
     {
         if (is_transient(field))
             continue;
-        auto name = get_json_name(field);
-
-        std::string label = ctx.number_names ? std::to_string(field.index) : name;
+        std::string label = get_label(ctx, field);
         if (ctx.obfuscate_strings)
             label = Printer::format("std::string(\"$1$\", $2$)", obfuscate(label), label.length());
         else
@@ -473,6 +488,8 @@ static void generateMessage( GeneratorContext &ctx, const Message &message )
         throw protogen::exception("more than " + std::to_string(protogen::CppGenerator::MAX_FIELDS) +
             " fields in message '" + message.name + "'");
 
+    check_labels(ctx, message);
+
     ctx.printer("\n//\n// $1$\n//\n", message.name);
 
     // create the model structure
-- 
2.43.0


From 679d1c18f7ddbea76f9ff850e37f3d6a9e760cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 34/57] fix: reject names that cannot be used in C++

C++ keywords, and names that collide with the generated structures, gave a header
that does not compile.
---
 source/cpp/cppgen.cc | 46 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index afeb77a..4c1d81b 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -262,6 +262,51 @@ static std::string get_json_name( const Field &field )
     return name;
 }
 
+static void check_identifier( const std::string &name )
+{
+    static const std::unordered_set<std::string> KEYWORDS =
+    {
+        "alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break",
+        "case", "catch", "char", "char8_t", "char16_t", "char32_t", "class", "compl", "concept",
+        "const", "consteval", "constexpr", "constinit", "const_cast", "continue", "co_await",
+        "co_return", "co_yield", "decltype", "default", "delete", "do", "double", "dynamic_cast",
+        "else", "enum", "explicit", "export", "extern", "false", "float", "for", "friend", "goto",
+        "if", "inline", "int", "long", "mutable", "namespace", "new", "noexcept", "not", "not_eq",
+        "nullptr", "operator", "or", "or_eq", "private", "protected", "public", "register",
+        "reinterpret_cast", "requires", "return", "short", "signed", "sizeof", "static",
+        "static_assert", "static_cast", "struct", "switch", "template", "this", "thread_local",
+        "throw", "true", "try", "typedef", "typeid", "typename", "union", "unsigned", "using",
+        "virtual", "void", "volatile", "wchar_t", "while", "xor", "xor_eq",
+    };
+    if (KEYWORDS.count(name) > 0)
+        throw exception("'" + name + "' is a C++ keyword");
+}
+
+// Ensures that the generated declarations will not conflict with the language or with each other.
+static void check_names( const GeneratorContext &ctx )
+{
+    std::unordered_set<std::string> names;
+    for (const auto &message : ctx.root.messages)
+        names.insert(message->qualifiedName());
+    for (const auto &message : ctx.root.messages)
+    {
+        if (names.count(message->qualifiedName() + "_type") > 0)
+            throw exception("'" + message->name + "_type' is reserved because there is a message named '" + message->name + "'");
+
+        check_identifier(message->name);
+        std::stringstream package(message->package);
+        std::string part;
+        while (std::getline(package, part, '.'))
+            check_identifier(part);
+        for (const auto &field : message->fields)
+        {
+            check_identifier(field.name);
+            if (field.name == message->name + "_type")
+                throw exception("'" + field.name + "' is reserved in the message '" + message->name + "'");
+        }
+    }
+}
+
 static std::string get_label( const GeneratorContext &ctx, const Field &field )
 {
     auto name = get_json_name(field);
@@ -618,6 +663,7 @@ void CppGenerator::generate( Proto3 &root, std::ostream &out )
     ctx.cpp_use_lists = get_option(ctx.root.options, PROTOGEN_O_CPP_USE_LISTS, false);
     ctx.number_names = get_option(ctx.root.options, PROTOGEN_O_NUMBER_NAMES, false);
 
+    check_names(ctx);
     generateInclusions(ctx);
     generateModel(ctx);
 }
-- 
2.43.0


From 2fa679287a7da22a2d8fe57772915eefff0434e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 35/57] fix: use different include guards for different files

'a-b.proto' and 'a_b.proto' in the same folder had the same guard, so only one
of the two headers could be used in a translation unit.
---
 source/cpp/cppgen.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 4c1d81b..b770db8 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -549,15 +549,19 @@ static void generateMessage( GeneratorContext &ctx, const Message &message )
 static std::string makeGuard( const std::string &fileName )
 {
     std::string out = "GUARD_";
+    char code[8];
     for (auto it = fileName.begin(); it != fileName.end(); ++it)
     {
         if ( (*it >= 'A' && *it <= 'Z') ||
              (*it >= 'a' && *it <= 'z') ||
-             (*it >= '0' && *it <= '9') ||
-             *it == '_')
+             (*it >= '0' && *it <= '9'))
             out += *it;
         else
-            out += '_';
+        {
+            // use the character code to have different guards for different files
+            SNPRINTF(code, sizeof(code), "_%02X", (unsigned) *it & 0xFF);
+            out += code;
+        }
     }
     return out;
 }
-- 
2.43.0


From a0024cc36f6950052689e20797f9723da199b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 36/57] fix: report input and output failures

A schema that could not be read to the end was compiled up to that point (a
directory gave an empty header), and a header that could not be written was
reported as success.
---
 source/main.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/main.cc b/source/main.cc
index dbdc563..0d60fa8 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -71,6 +71,7 @@ int main( int argc, char **argv )
     try
     {
         proto.parse(input, fullPath);
+        if (input.bad()) main_error(std::string("Unable to read '") + argv[1] + "'");
 
         for (auto &message : proto.messages)
         {
@@ -80,13 +81,15 @@ int main( int argc, char **argv )
 
         protogen::CppGenerator gen;
         gen.generate(proto, *output);
+        output->flush();
+        if (argc == 3) out.close();
+        if (!output->good()) main_error("Unable to write the output");
     } catch (protogen::exception &ex)
     {
         std::cerr << fullPath << ':' << ex.line << ':' << ex.column << ": error: " << ex.cause() << std::endl;
         result = 1;
     }
     input.close();
-    if (argc == 3) out.close();
 
     return result;
 }
\ No newline at end of file
-- 
2.43.0


From bd915675dac3c2478892beadd97f9f8c5940a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 37/57] fix: escape JSON names that are not plain ASCII

Non-ASCII names were written as they are even with ensure_ascii, and a name with
'??' could be changed by the C++ preprocessor.
---
 source/cpp/cppgen.cc | 53 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index b770db8..241b0b6 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -326,6 +326,53 @@ static void check_labels( const GeneratorContext &ctx, const Message &message )
     }
 }
 
+// Escapes the non-ASCII characters, because the JSON names are written as they are
+// even if the user asks for an ASCII-only output.
+static std::string escape_label( const std::string &label )
+{
+    std::string output;
+    for (size_t i = 0, t = label.length(); i < t;)
+    {
+        uint8_t lead = (uint8_t) label[i];
+        if (lead < 0x80)
+        {
+            output += label[i++];
+            continue;
+        }
+        size_t count = lead >= 0xF0 ? 3 : (lead >= 0xE0 ? 2 : 1);
+        uint32_t codepoint = lead & (0x3F >> count);
+        bool valid = lead >= 0xC2 && lead <= 0xF4 && i + count < t;
+        for (size_t j = 1; valid && j <= count; ++j)
+        {
+            valid = (label[i + j] & 0xC0) == 0x80;
+            codepoint = (codepoint << 6) | (label[i + j] & 0x3F);
+        }
+        static const uint32_t MINIMUM[] = { 0, 0x80, 0x800, 0x10000 };
+        if (!valid || codepoint < MINIMUM[count] || codepoint > 0x10FFFF || (codepoint >= 0xD800 && codepoint <= 0xDFFF))
+            throw exception("the JSON name '" + label + "' is not valid UTF-8");
+        char buffer[16];
+        if (codepoint < 0x10000)
+            SNPRINTF(buffer, sizeof(buffer), "\\u%04x", (unsigned) codepoint);
+        else
+            SNPRINTF(buffer, sizeof(buffer), "\\u%04x\\u%04x", (unsigned) (0xD7C0 + (codepoint >> 10)), (unsigned) (0xDC00 + (codepoint & 0x3FF)));
+        output += buffer;
+        i += count + 1;
+    }
+    return output;
+}
+
+static std::string cpp_literal( const std::string &text )
+{
+    std::string output = "\"";
+    for (auto c : text)
+    {
+        // the question mark can be part of a trigraph
+        if (c == '\\' || c == '?') output += '\\';
+        output += c;
+    }
+    return output += '"';
+}
+
 static void generate_function__read_field( GeneratorContext &ctx, const Message &message, const std::string &typeName,
     bool is_persistent )
 {
@@ -365,11 +412,11 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
     {
         if (is_transient(field))
             continue;
-        std::string label = get_label(ctx, field);
+        std::string label = escape_label(get_label(ctx, field));
         if (ctx.obfuscate_strings)
             label = Printer::format("reveal(std::string(\"$1$\", $2$))", obfuscate(label), label.length());
         else
-            label = Printer::format("\"$1$\"", label);
+            label = cpp_literal(label);
 
         ctx.printer(CODE_JSON__WRITE__ITEM, field.name, label);
         ++i;
@@ -480,7 +527,7 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
         if (ctx.obfuscate_strings)
             label = Printer::format("std::string(\"$1$\", $2$)", obfuscate(label), label.length());
         else
-            label = Printer::format("\"$1$\"", label);
+            label = cpp_literal(label);
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
-- 
2.43.0


From 7bdf2262b3b1a497f4421573ad0443298aa569d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 38/57] fix: reject names that hide the ones used by the
 generated code

A field 'int32_t' or a package 'a.std' lead to headers that do not compile.
---
 source/cpp/cppgen.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 241b0b6..12f3897 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -262,7 +262,7 @@ static std::string get_json_name( const Field &field )
     return name;
 }
 
-static void check_identifier( const std::string &name )
+static void check_identifier( const std::string &name, bool is_field = false )
 {
     static const std::unordered_set<std::string> KEYWORDS =
     {
@@ -280,6 +280,12 @@ static void check_identifier( const std::string &name )
     };
     if (KEYWORDS.count(name) > 0)
         throw exception("'" + name + "' is a C++ keyword");
+
+    // names used by the generated code, which would be hidden
+    static const std::unordered_set<std::string> TYPES = { "int32_t", "int64_t", "uint32_t", "uint64_t", "uint8_t" };
+    static const std::unordered_set<std::string> NAMESPACES = { "std", std::string("protogen") + PROTOGEN_VERSION_NAMING };
+    if (TYPES.count(name) > 0 || (!is_field && NAMESPACES.count(name) > 0))
+        throw exception("'" + name + "' is reserved");
 }
 
 // Ensures that the generated declarations will not conflict with the language or with each other.
@@ -300,7 +306,7 @@ static void check_names( const GeneratorContext &ctx )
             check_identifier(part);
         for (const auto &field : message->fields)
         {
-            check_identifier(field.name);
+            check_identifier(field.name, true);
             if (field.name == message->name + "_type")
                 throw exception("'" + field.name + "' is reserved in the message '" + message->name + "'");
         }
-- 
2.43.0


From ec1cbb7eaaa428329690dfb460710f9dc878ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 39/57] fix: read float numbers without rounding twice

---
 source/cpp/json-number.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index e19eca8..9cdddcf 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -33,24 +33,24 @@ template<typename T> class field
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 static bool string_to_number( const std::string &text, T &output )
 {
-    double value;
+    // conversion to 'float' through 'double' would round twice
+    constexpr bool is_float = std::is_same<T, float>::value;
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return false;
-    value = _strtod_l(text.c_str(), nullptr, loc);
+    output = static_cast<T>(is_float ? _strtof_l(text.c_str(), nullptr, loc) : _strtod_l(text.c_str(), nullptr, loc));
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return false;
 #ifdef __USE_GNU
-    value = strtod_l(text.c_str(), nullptr, loc);
+    output = static_cast<T>(is_float ? strtof_l(text.c_str(), nullptr, loc) : strtod_l(text.c_str(), nullptr, loc));
 #else
     locale_t old = uselocale(loc);
     if (old == 0) return false;
-    value = strtod(text.c_str(), nullptr);
+    output = static_cast<T>(is_float ? strtof(text.c_str(), nullptr) : strtod(text.c_str(), nullptr));
     uselocale(old);
 #endif
 #endif
-    output = static_cast<T>(value);
     return std::isfinite(output);
 }
 
-- 
2.43.0


From cc3888b61f2420aa626b1aaec6edc2ed5104a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:21 +0000
Subject: [PATCH 40/57] fix: reject message names that are members of the
 generated types

---
 source/cpp/cppgen.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 12f3897..58bb026 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -300,6 +300,11 @@ static void check_names( const GeneratorContext &ctx )
             throw exception("'" + message->name + "_type' is reserved because there is a message named '" + message->name + "'");
 
         check_identifier(message->name);
+        // names of members of the generated types, which can not be used as the name of the type
+        static const std::unordered_set<std::string> MEMBERS = { "clear", "deserialize", "empty", "equal",
+            "serialize", "serializer_type", "swap", "value_type" };
+        if (MEMBERS.count(message->name) > 0)
+            throw exception("'" + message->name + "' is reserved");
         std::stringstream package(message->package);
         std::string part;
         while (std::getline(package, part, '.'))
-- 
2.43.0


From c031eddf5ea9c812413a51cb1dfc29bdaaf6bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:35 +0000
Subject: [PATCH 41/57] fix: report that the path of the schema cannot be found

---
 source/main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/main.cc b/source/main.cc
index 0d60fa8..c75cff0 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -61,10 +61,10 @@ int main( int argc, char **argv )
     int result = 0;
     #ifdef _WIN32
 	char fullPath[MAX_PATH] = { 0 };
-	if (GetFullPathName(argv[1], MAX_PATH, fullPath, nullptr) == 0) return 1;
+	if (GetFullPathName(argv[1], MAX_PATH, fullPath, nullptr) == 0) main_error(std::string("Unable to find the path of '") + argv[1] + "'");
 	#else
 	char fullPath[PATH_MAX] = { 0 };
-	if (realpath(argv[1], fullPath) == nullptr) return 1;
+	if (realpath(argv[1], fullPath) == nullptr) main_error(std::string("Unable to find the path of '") + argv[1] + "'");
 	#endif
 
     protogen::Proto3 proto;
-- 
2.43.0


From 47c606c065c4b6678ced5082e726ae8bfc4066ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 42/57] fix: read the schema before the output file is opened

---
 source/main.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/main.cc b/source/main.cc
index c75cff0..0254ec4 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -51,12 +51,6 @@ int main( int argc, char **argv )
 
     std::ostream *output = &std::cout;
     std::ofstream out;
-    if (argc == 3)
-    {
-        out.open(argv[2], std::ios_base::ate);
-        if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
-        output = &out;
-    }
 
     int result = 0;
     #ifdef _WIN32
@@ -73,6 +67,14 @@ int main( int argc, char **argv )
         proto.parse(input, fullPath);
         if (input.bad()) main_error(std::string("Unable to read '") + argv[1] + "'");
 
+        // not before the schema was read, because it can be the same file
+        if (argc == 3)
+        {
+            out.open(argv[2], std::ios_base::ate);
+            if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
+            output = &out;
+        }
+
         for (auto &message : proto.messages)
         {
             std::sort(message->fields.begin(), message->fields.end(),
-- 
2.43.0


From 9dc3cef1d101a134043f68bb6886b54678df0891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:29 +0000
Subject: [PATCH 43/57] fix: embed the last line of a file that does not end
 with a line break

---
 source/template.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/source/template.cc b/source/template.cc
index bf85b1d..fdfdab2 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -8,11 +8,8 @@ void copy( std::istream &input, std::ostream &output, const std::string &name )
     std::string line;
 
     output << "#define " << name << " \\\n";
-    while (!input.eof())
+    while (std::getline(input, line))
     {
-        std::getline(input, line);
-		if (!input.good()) break;
-
         if (line.length() > 0 && line[0] == '#' && line.find("AUTO-REMOVE") != std::string::npos)
             continue;
 
@@ -46,11 +43,8 @@ void process( std::istream &input, std::ostream &output, const std::string &guar
     output << "#ifndef " << guard << '\n';
     output << "#define " << guard << '\n';
 
-    while (!input.eof())
+    while (std::getline(input, line))
     {
-        std::getline(input, line);
-		if (!input.good()) break;
-
         if (!content)
         {
             if (line.find("--- ") != 0) continue;
-- 
2.43.0


From efe5beae841d39eacfb24f1f1fe74bf18006c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 44/57] fix: embed question marks and control characters as
 they are

---
 source/template.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/template.cc b/source/template.cc
index fdfdab2..1b2c299 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -3,6 +3,19 @@
 #include <string>
 #include <cmake.hh>
 
+// writes a character as it has to be in a string literal
+static void escape( std::ostream &output, char c )
+{
+    unsigned value = (unsigned char) c;
+    if (c == '?') // can be part of a trigraph
+        output << "\\?";
+    else
+    if (value < 0x20 || value == 0x7F)
+        output << '\\' << (value >> 6) << (value >> 3 & 7) << (value & 7);
+    else
+        output << c;
+}
+
 void copy( std::istream &input, std::ostream &output, const std::string &name )
 {
     std::string line;
@@ -28,7 +41,7 @@ void copy( std::istream &input, std::ostream &output, const std::string &name )
             if (c == '\\')
                 output << "\\\\";
             else
-                output << c;
+                escape(output, c);
         }
         output << "\\n\" \\\n";
     }
@@ -69,7 +82,7 @@ void process( std::istream &input, std::ostream &output, const std::string &guar
                 if (*it == '\\')
                     output << "\\\\";
                 else
-                    output << *it;
+                    escape(output, *it);
             }
             output << "\\n\" \\\n";
         }
-- 
2.43.0


From b46e8de5472312de6b745e57131adf26b849b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:51 +0000
Subject: [PATCH 45/57] fix: print the runtime library as it is

---
 source/cpp/cppgen.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 58bb026..0913c1a 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -690,16 +690,16 @@ static void generateInclusions( GeneratorContext &ctx )
         }
     }
     // include the necessary headers
-    ctx.printer(GENERATED__protogen_hh);
-    ctx.printer(GENERATED__json_hh);
+    ctx.printer.print(GENERATED__protogen_hh);
+    ctx.printer.print(GENERATED__json_hh);
     if (has_array)
-        ctx.printer(GENERATED__json_array_hh);
+        ctx.printer.print(GENERATED__json_array_hh);
     if (has_base64)
-        ctx.printer(GENERATED__json_base___hh);
+        ctx.printer.print(GENERATED__json_base___hh);
     if (has_number)
-        ctx.printer(GENERATED__json_number_hh);
+        ctx.printer.print(GENERATED__json_number_hh);
     if (has_string)
-        ctx.printer(GENERATED__json_string_hh);
+        ctx.printer.print(GENERATED__json_string_hh);
 }
 
 static void generateModel( GeneratorContext &ctx )
-- 
2.43.0


From d78d331c7e61420fcd017ebd899747651c738f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:59 +0000
Subject: [PATCH 46/57] fix: look messages up by name in an index

---
 source/proto3.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index eb2074a..fcddf0d 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -17,6 +17,7 @@
 #include <protogen/proto3.hh>
 #include <iterator>
 #include <sstream>
+#include <unordered_map>
 
 
 #define IS_LETTER(x)           ( ((x) >= 'A' && (x) <= 'Z') || ((x) >= 'a' && (x) <= 'z') || (x) == '_' )
@@ -491,10 +492,14 @@ struct Context
     Proto3 &tree;
     InputStream<T> &is;
     std::string package;
+    // messages by qualified name
+    std::unordered_map<std::string, std::shared_ptr<Message>> index;
 
     Context( Tokenizer<T> &tokenizer, Proto3 &tree, InputStream<T> &is ) :
         tokens(tokenizer), tree(tree), is(is)
     {
+        for (const auto &message : tree.messages)
+            index.emplace(message->qualifiedName(), message);
     }
 };
 
@@ -591,9 +596,8 @@ static void parseStandardOption( ProtoContext &ctx, OptionMap &entries )
 
 static std::shared_ptr<Message> findMessage( ProtoContext &ctx, const std::string &name )
 {
-    for (auto it = ctx.tree.messages.begin(); it != ctx.tree.messages.end(); ++it)
-        if ((*it)->qualifiedName() == name) return *it;
-    return nullptr;
+    auto it = ctx.index.find(name);
+    return it == ctx.index.end() ? nullptr : it->second;
 }
 
 
@@ -726,6 +730,7 @@ static void parseMessage( ProtoContext &ctx )
                     parseField(ctx, *message);
             }
             ctx.tree.messages.push_back(message);
+            ctx.index.emplace(message->qualifiedName(), message);
             return;
         }
     }
-- 
2.43.0


From 687fe14e6bc9b0134299598aad54c6fb7346e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:16 +0000
Subject: [PATCH 47/57] fix: order messages without recursion

---
 source/cpp/cppgen.cc | 45 ++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 0913c1a..a4763c0 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -627,38 +627,43 @@ static std::string makeGuard( const std::string &fileName )
 typedef std::vector<std::shared_ptr<protogen::Message>> MessageList;
 typedef std::unordered_set<std::shared_ptr<protogen::Message>> MessageSet;
 
-static bool contains( const MessageList &items, const std::shared_ptr<protogen::Message> &message )
+// Puts the given message in the output, after the messages it refers to. The messages being
+// visited are kept in an explicit stack because the depth of the references is up to the input.
+static void sort( MessageList &output, MessageSet &sorted, std::shared_ptr<protogen::Message> message )
 {
-    for (const auto &current : items)
-        if (current == message)
-            return true;
-    return false;
-}
-
-static void sort( MessageList &output, MessageSet &pending, std::shared_ptr<protogen::Message> message )
-{
-    if (pending.count(message) > 0)
-        throw exception("circular reference with '" + message->name + "'");
-    if (contains(output, message))
+    MessageSet pending;
+    std::vector<std::pair<std::shared_ptr<protogen::Message>, size_t>> path; // messages and their next fields
+    if (sorted.count(message) > 0)
         return; // already processed
 
     pending.insert(message);
-    for (auto &field : message->fields)
+    path.emplace_back(message, 0);
+    while (!path.empty())
     {
-        if (field.type.ref != nullptr && !contains(output, field.type.ref))
-            sort(output, pending, field.type.ref);
+        message = path.back().first;
+        if (path.back().second < message->fields.size())
+        {
+            auto &field = message->fields[path.back().second++];
+            if (field.type.ref == nullptr || sorted.count(field.type.ref) > 0)
+                continue;
+            if (!pending.insert(field.type.ref).second)
+                throw exception("circular reference with '" + field.type.ref->name + "'");
+            path.emplace_back(field.type.ref, 0);
+            continue;
+        }
+        pending.erase(message);
+        path.pop_back();
+        sorted.insert(message);
+        output.push_back(message);
     }
-    pending.erase(message);
-
-    output.push_back(message);
 }
 
 static void sort( GeneratorContext &ctx )
 {
     std::vector<std::shared_ptr<protogen::Message>> messages;
-    std::unordered_set<std::shared_ptr<protogen::Message>> pending;
+    std::unordered_set<std::shared_ptr<protogen::Message>> sorted;
     for (auto &message : ctx.root.messages)
-        sort(messages, pending, message);
+        sort(messages, sorted, message);
 
     ctx.root.messages.swap(messages);
 }
-- 
2.43.0


From ba67e2e7bc3dac223885d46af554fbd4471de415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:35 +0000
Subject: [PATCH 48/57] fix: release chains of messages without recursion

---
 include/protogen/proto3.hh |  4 ++++
 source/proto3.cc           | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/protogen/proto3.hh b/include/protogen/proto3.hh
index c556b7a..ca18f38 100644
--- a/include/protogen/proto3.hh
+++ b/include/protogen/proto3.hh
@@ -90,6 +90,10 @@ struct Message
     std::string package;
     OptionMap options;
 
+    Message() = default;
+    Message( const Message &that ) = default;
+    Message &operator=( const Message &that ) = default;
+    ~Message();
     std::string qualifiedName() const;
     void splitPackage( std::vector<std::string> &out );
 };
diff --git a/source/proto3.cc b/source/proto3.cc
index fcddf0d..8d23073 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -518,6 +518,24 @@ std::ostream &operator<<( std::ostream &out, protogen::Proto3 &proto );
 
 namespace protogen {
 
+// Releases the referred messages without recursion because the depth of the references is up to the input.
+Message::~Message()
+{
+    std::vector<std::shared_ptr<Message>> pending;
+    auto release = [&pending]( Message &message )
+    {
+        for (auto &field : message.fields)
+            if (field.type.ref != nullptr) pending.push_back(std::move(field.type.ref));
+    };
+    release(*this);
+    while (!pending.empty())
+    {
+        auto message = std::move(pending.back());
+        pending.pop_back();
+        if (message.use_count() == 1) release(*message);
+    }
+}
+
 std::string Message::qualifiedName() const
 {
     if (package.empty()) return name;
-- 
2.43.0


From 6dbfdb635feb86c235217a22bbbf45759ea9979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:42 +0000
Subject: [PATCH 49/57] fix: control characters in the comment with the name of
 the schema file

---
 source/cpp/cppgen.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index a4763c0..69216ca 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -710,7 +710,11 @@ static void generateInclusions( GeneratorContext &ctx )
 static void generateModel( GeneratorContext &ctx )
 {
     std::string guard = makeGuard(ctx.root.fileName);
-    ctx.printer(CODE_HEADER, PROTOGEN_VERSION, ctx.root.fileName, guard);
+    // the file name is written in a comment, which must not end before it
+    std::string source = ctx.root.fileName;
+    for (auto &c : source)
+        if (c >= 0 && c < 0x20) c = '?';
+    ctx.printer(CODE_HEADER, PROTOGEN_VERSION, source, guard);
 
     sort(ctx);
 
-- 
2.43.0


From db18ae4d10fc82e7a1893776b883e0157714ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:18 +0000
Subject: [PATCH 50/57] fix: keep the flags of the input stream when the
 deserialization throws

---
 source/cpp/protogen.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 61b3c81..199b2bd 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -666,14 +666,19 @@ struct message
 
     virtual bool deserialize( std::istream &in, Parameters *params = nullptr )
     {
-        bool skip = in.flags() & std::ios_base::skipws;
+        // restores the flags even if something throws
+        struct flags_guard
+        {
+            std::istream &in;
+            std::ios_base::fmtflags flags;
+            ~flags_guard() { in.flags(flags); }
+        } guard = { in, in.flags() };
+        (void) guard;
         std::noskipws(in);
         std::istream_iterator<char> end;
         std::istream_iterator<char> begin(in);
         iterator_istream<std::istream_iterator<char>> is(begin, end);
-        bool result = deserialize(is, params);
-        if (skip) std::skipws(in);
-        return result;
+        return deserialize(is, params);
     }
 
     virtual bool deserialize( const std::string &in, Parameters *params = nullptr )
-- 
2.43.0


From 79d33752c8acc7dea887510a4992d7663850a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:18 +0000
Subject: [PATCH 51/57] fix: keep the locale of the thread when there is no
 memory to write a number

---
 source/cpp/json-number.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 9cdddcf..26e0b0d 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -135,12 +135,15 @@ std::string number_to_string( const T &value )
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return "0";
-    locale_t old = uselocale(loc);
-    if (old == 0) return "0";
     do
+    {
+        // nothing can throw while the locale is changed
+        locale_t old = uselocale(loc);
+        if (old == 0) return "0";
         snprintf(tmp, sizeof(tmp) - 1, "%.*g", precision, value);
+        uselocale(old);
+    }
     while ((!string_to_number<T>(tmp, temp) || temp != value) && ++precision <= std::numeric_limits<T>::max_digits10);
-    uselocale(old);
 #endif
     tmp[sizeof(tmp) - 1] = 0;
     return tmp;
-- 
2.43.0


From ae52279106707ab4a3504f4da0d5e2e7184dcacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:59 +0000
Subject: [PATCH 52/57] fix: keep the flags of the input stream when the schema
 parser throws

---
 source/proto3.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 8d23073..5b71ab9 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -809,9 +809,19 @@ static void parseProto( ProtoContext &ctx )
     } while (ctx.tokens.current.code != 0);
 }
 
+// restores the flags of the stream, whatever the way the parsing ends
+struct FlagsGuard
+{
+    std::istream &input;
+    std::ios_base::fmtflags flags;
+    FlagsGuard( std::istream &input ) : input(input), flags(input.flags()) {}
+    FlagsGuard( const FlagsGuard & ) = delete;
+    ~FlagsGuard() { input.flags(flags); }
+};
+
 void Proto3::parse( std::istream &input, const std::string &fileName )
 {
-    std::ios_base::fmtflags flags = input.flags();
+    FlagsGuard guard(input);
     std::noskipws(input);
     std::istream_iterator<char> end;
     std::istream_iterator<char> begin(input);
@@ -822,15 +832,7 @@ void Proto3::parse( std::istream &input, const std::string &fileName )
     ProtoContext ctx(tok, *this, is);
     this->fileName = fileName;
 
-    try
-    {
-        parseProto(ctx);
-        if (flags & std::ios::skipws) std::skipws(input);
-    } catch (exception &ex)
-    {
-        if (flags & std::ios::skipws) std::skipws(input);
-        throw ex;
-    }
+    parseProto(ctx);
 
     // check if we have unresolved types
     for (auto &message : this->messages)
-- 
2.43.0


From be723d8e79f5b8e0b36e212edcb79ccd983277c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:08 +0000
Subject: [PATCH 53/57] fix: do not terminate when there is no memory to
 release a message

---
 source/proto3.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 5b71ab9..d05aa21 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -527,12 +527,18 @@ Message::~Message()
         for (auto &field : message.fields)
             if (field.type.ref != nullptr) pending.push_back(std::move(field.type.ref));
     };
-    release(*this);
-    while (!pending.empty())
+    try
     {
-        auto message = std::move(pending.back());
-        pending.pop_back();
-        if (message.use_count() == 1) release(*message);
+        release(*this);
+        while (!pending.empty())
+        {
+            auto message = std::move(pending.back());
+            pending.pop_back();
+            if (message.use_count() == 1) release(*message);
+        }
+    } catch (std::bad_alloc &)
+    {
+        // what remains is released by the ordinary destruction
     }
 }
 
-- 
2.43.0


From 03cc2ffda79439cb29faac0595f27a2830f82f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:35 +0000
Subject: [PATCH 54/57] fix: release the messages of recursive schemas

---
 include/protogen/proto3.hh |  6 ++++++
 source/proto3.cc           | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/include/protogen/proto3.hh b/include/protogen/proto3.hh
index ca18f38..fd82cea 100644
--- a/include/protogen/proto3.hh
+++ b/include/protogen/proto3.hh
@@ -104,6 +104,12 @@ struct Proto3
     OptionMap options;
     std::string fileName;
 
+    Proto3() = default;
+    Proto3( const Proto3 &that ) = default;
+    Proto3( Proto3 &&that ) = default;
+    Proto3 &operator=( const Proto3 &that ) = default;
+    Proto3 &operator=( Proto3 &&that ) = default;
+    ~Proto3();
     void parse( std::istream &input, const std::string &fileName = "");
 };
 
diff --git a/source/proto3.cc b/source/proto3.cc
index d05aa21..2ccad7c 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -815,6 +815,27 @@ static void parseProto( ProtoContext &ctx )
     } while (ctx.tokens.current.code != 0);
 }
 
+// Messages can refer to each other in cycles, which would keep them forever. The references are
+// dropped only if nobody else (e.g. a copy of this object) is using the messages.
+Proto3::~Proto3()
+{
+    long owners = 0, references = 0;
+    for (auto &message : messages)
+    {
+        if (message == nullptr) continue;
+        owners += message.use_count();
+        ++references;
+        for (auto &field : message->fields)
+            if (field.type.ref != nullptr) ++references;
+    }
+    if (owners != references) return;
+    for (auto &message : messages)
+    {
+        if (message == nullptr) continue;
+        for (auto &field : message->fields) field.type.ref.reset();
+    }
+}
+
 // restores the flags of the stream, whatever the way the parsing ends
 struct FlagsGuard
 {
-- 
2.43.0


From 7aa2d7f31be1c5eb840884cd4b51e84b80b1f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:08 +0000
Subject: [PATCH 55/57] fix: do not truncate names when there is no memory in
 the generator

---
 source/cpp/cppgen.cc | 2 ++
 source/exception.cc  | 1 +
 source/printer.hh    | 1 +
 3 files changed, 4 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 69216ca..19fc45c 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -218,6 +218,7 @@ static inline std::string obfuscate( const std::string &value )
 {
     uint8_t mask = rol<uint8_t>(0x93U, value.length() % 8);
 	std::stringstream result;
+	result.exceptions(std::ios::badbit);
 	for (size_t i = 0, t = value.length(); i < t; ++i)
     {
 		result << "\\x";
@@ -306,6 +307,7 @@ static void check_names( const GeneratorContext &ctx )
         if (MEMBERS.count(message->name) > 0)
             throw exception("'" + message->name + "' is reserved");
         std::stringstream package(message->package);
+        package.exceptions(std::ios::badbit);
         std::string part;
         while (std::getline(package, part, '.'))
             check_identifier(part);
diff --git a/source/exception.cc b/source/exception.cc
index 9eddef0..83a5e14 100644
--- a/source/exception.cc
+++ b/source/exception.cc
@@ -41,6 +41,7 @@ const char *exception::what() const throw()
 const std::string exception::cause() const
 {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
     ss << message << " (" << line << ':' << column << ')';
     return ss.str();
 }
diff --git a/source/printer.hh b/source/printer.hh
index e482437..a5f569b 100644
--- a/source/printer.hh
+++ b/source/printer.hh
@@ -54,6 +54,7 @@ class Printer
         static std::string format(const char* format, const T&... args)
         {
             std::stringstream ss;
+            ss.exceptions(std::ios::badbit);
             print(ss, format, {toString(args)...});
             return ss.str();
         }
-- 
2.43.0


From 6a10e630b3adbb3e3e4393b871299cff07cd564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:41 +0000
Subject: [PATCH 56/57] fix: do not compare each field with all the others of
 the message

---
 source/proto3.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 2ccad7c..b5e8ba4 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -16,6 +16,7 @@
 
 #include <protogen/proto3.hh>
 #include <iterator>
+#include <map>
 #include <sstream>
 #include <unordered_map>
 
@@ -639,7 +640,15 @@ static std::shared_ptr<Message> findType( ProtoContext &ctx, std::string package
 }
 
 
-static void parseField( ProtoContext &ctx, Message &message )
+// Positions of the fields of a message by index and by name.
+struct FieldPositions
+{
+    std::map<int, size_t> indices;
+    std::unordered_map<std::string, size_t> names;
+};
+
+
+static void parseField( ProtoContext &ctx, Message &message, FieldPositions &positions )
 {
     Field field;
 
@@ -718,13 +727,12 @@ static void parseField( ProtoContext &ctx, Message &message )
         throw exception("Expected ';'", TOKEN_POSITION(ctx.tokens.current));
 
     // check for repeated field indices and names
-    for (auto it = message.fields.begin(); it != message.fields.end(); it++)
-    {
-        if (it->index == field.index)
-            throw exception("Field '" + it->name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
-        if (it->name == field.name)
-            throw exception("Field '" + it->name + "' already exists in the message '" + message.name + "'", CURRENT_TOKEN_POSITION);
-    }
+    auto sameIndex = positions.indices.emplace(field.index, message.fields.size());
+    auto sameName = positions.names.emplace(field.name, message.fields.size());
+    if (!sameIndex.second && (sameName.second || sameIndex.first->second <= sameName.first->second))
+        throw exception("Field '" + message.fields[sameIndex.first->second].name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
+    if (!sameName.second)
+        throw exception("Field '" + field.name + "' already exists in the message '" + message.name + "'", CURRENT_TOKEN_POSITION);
 
     message.fields.push_back(field);
 }
@@ -744,6 +752,7 @@ static void parseMessage( ProtoContext &ctx )
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
+            FieldPositions positions;
             while (ctx.tokens.next().code != TOKEN_END)
             {
                 if (ctx.tokens.current.code == TOKEN_EOF)
@@ -751,7 +760,7 @@ static void parseMessage( ProtoContext &ctx )
                 if (ctx.tokens.current.code == TOKEN_OPTION)
                     parseStandardOption(ctx, message->options);
                 else
-                    parseField(ctx, *message);
+                    parseField(ctx, *message, positions);
             }
             ctx.tree.messages.push_back(message);
             ctx.index.emplace(message->qualifiedName(), message);
-- 
2.43.0


From 95288afa00e77643bc33841d81b30f82f6e82204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:41 +0000
Subject: [PATCH 57/57] fix: do not look for a type in each one of the
 enclosing packages

---
 source/proto3.cc | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index b5e8ba4..2ea5176 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -495,12 +495,19 @@ struct Context
     std::string package;
     // messages by qualified name
     std::unordered_map<std::string, std::shared_ptr<Message>> index;
+    // messages by name
+    std::unordered_map<std::string, std::vector<std::shared_ptr<Message>>> names;
 
     Context( Tokenizer<T> &tokenizer, Proto3 &tree, InputStream<T> &is ) :
         tokens(tokenizer), tree(tree), is(is)
     {
-        for (const auto &message : tree.messages)
-            index.emplace(message->qualifiedName(), message);
+        for (const auto &message : tree.messages) add(message);
+    }
+
+    void add( const std::shared_ptr<Message> &message )
+    {
+        index.emplace(message->qualifiedName(), message);
+        names[message->name].push_back(message);
     }
 };
 
@@ -628,15 +635,38 @@ static std::shared_ptr<Message> findMessage( ProtoContext &ctx, const std::strin
 
 // Finds the message denoted by a type name used inside the given package, looking
 // from the innermost package to the outermost.
-static std::shared_ptr<Message> findType( ProtoContext &ctx, std::string package, const std::string &name )
+static std::shared_ptr<Message> findType( ProtoContext &ctx, const std::string &package, const std::string &name )
 {
-    while (true)
+    auto message = findMessage(ctx, package.empty() ? name : package + '.' + name);
+    if (message != nullptr) return message;
+
+    // the packages can be very deep, so look through the messages instead of the packages
+    auto pos = name.rfind('.');
+    auto it = ctx.names.find(pos == std::string::npos ? name : name.substr(pos + 1));
+    if (it == ctx.names.end()) return nullptr;
+    std::string tail = pos == std::string::npos ? "" : name.substr(0, pos);
+    size_t best = 0;
+    for (auto &current : it->second)
     {
-        auto message = findMessage(ctx, package.empty() ? name : package + '.' + name);
-        if (message != nullptr || package.empty()) return message;
-        auto pos = package.rfind('.');
-        package.erase(pos == std::string::npos ? 0 : pos);
+        const std::string &where = current->package;
+        // length of the package in which the given name denotes the current message
+        size_t length = where.length();
+        if (!tail.empty())
+        {
+            if (length < tail.length() || where.compare(length - tail.length(), tail.length(), tail) != 0) continue;
+            length -= tail.length();
+            if (length > 0 && where[--length] != '.') continue;
+        }
+        // is it the given package or one of those around it?
+        if (length > package.length() || package.compare(0, length, where, 0, length) != 0) continue;
+        if (length > 0 && length < package.length() && package[length] != '.') continue;
+        if (message == nullptr || length > best)
+        {
+            message = current;
+            best = length;
+        }
     }
+    return message;
 }
 
 
@@ -763,7 +793,7 @@ static void parseMessage( ProtoContext &ctx )
                     parseField(ctx, *message, positions);
             }
             ctx.tree.messages.push_back(message);
-            ctx.index.emplace(message->qualifiedName(), message);
+            ctx.add(message);
             return;
         }
     }
-- 
2.43.0

