From a269518fa835534a8b9cc28a972bfcb5ebaaf281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 01/55] fix: skip nested unread scopes completely when
 finishing a scope

---
 src/lib/Node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 9051a2f..a1e792f 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -526,9 +526,10 @@ void Node::consume_scope()
         }
 
         if(tp == Type::Scope_End) {
-            depth--;
-            if(depth <= 0) {
+            if(depth == 0) {
                 this->parsed = true;
+            } else {
+                depth--;
             }
         }
     }
-- 
2.43.0


From 0df13976e5e0d41f096aef6269b3a1628ec999e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 02/55] fix: unpacking a Union must not discard the remaining
 items

---
 include/Srl/Resolve.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index e515c00..499f8a8 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -267,7 +267,6 @@ namespace Srl { namespace Lib {
                 u = node.get(id);
             } else {
                 u = node.consume_item(id);
-                node.consume_scope();
             }
         }
     };
-- 
2.43.0


From c38ebfeb88f0eb4bfefd4a6d6570cf705ae8252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 03/55] fix: reject NaN and 2^63/2^64 when converting floating
 point to integer, accept infinity as float

---
 include/Srl/TpTools.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/Srl/TpTools.h b/include/Srl/TpTools.h
index 32d973e..f1126d9 100644
--- a/include/Srl/TpTools.h
+++ b/include/Srl/TpTools.h
@@ -5,6 +5,7 @@
 #include "Value.h"
 
 #include <limits>
+#include <cmath>
 
 namespace Srl { namespace TpTools {
 
@@ -149,8 +150,14 @@ namespace Srl { namespace TpTools {
         {
             double val = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;
 
-            if(SrlType<T>::type != TP && SrlType<T>::type != Type::FP64 &&
-              (val < min<T>() || val > (double)max<T>())) {
+            if(std::is_floating_point<T>::value) {
+                /* narrowing, infinity and NaN are representable in any floating point type */
+                if(std::isfinite(val) && (val < min<T>() || val > (double)max<T>())) {
+                    return false;
+                }
+            } else if(!(val >= (double)min<T>() && val <= (double)max<T>()) ||
+                      /* max<T>() of 64 bit integers gets rounded up on conversion */
+                      val >= std::ldexp(1.0, std::numeric_limits<T>::digits)) {
 
                 return false;
             }
-- 
2.43.0


From 9f20df14fed9789db354568ca90ade4961fa7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 04/55] fix: check the end of input exactly and keep blocks
 intact across several refills

---
 include/Srl/In.hpp | 10 ++++----
 src/lib/In.cpp     | 57 +++++++++++++++++++++++++++-------------------
 src/lib/PJson.cpp  |  2 +-
 src/lib/PSrl.cpp   | 17 ++++++--------
 4 files changed, 47 insertions(+), 39 deletions(-)

diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index 00ae2a7..e41df65 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -48,7 +48,7 @@ namespace Srl { namespace Lib {
         }
         auto steps = 0U;
 
-        while(Not == this->is_at_token(tokens...)) {
+        while(this->peek(1, error) && Not == this->is_at_token(tokens...)) {
             this->move(1, error);
             steps++;
         }
@@ -82,7 +82,7 @@ namespace Srl { namespace Lib {
 
     inline const uint8_t* In::peek(size_t steps, const Error& error)
     {
-        if(this->pos + steps >= this->end) {
+        if(steps > (size_t)(this->end - this->pos)) {
             this->fetch_data(steps, error);
         }
         return this->pos;
@@ -90,7 +90,7 @@ namespace Srl { namespace Lib {
 
     inline bool In::try_peek(size_t steps)
     {
-        return this->pos + steps < this->end || this->try_fetch_data(steps);
+        return steps <= (size_t)(this->end - this->pos) || this->try_fetch_data(steps);
     }
 
     inline MemBlock In::read_block(size_t steps, const Error& error)
@@ -116,14 +116,14 @@ namespace Srl { namespace Lib {
         auto steps = 0U;
         auto bufsz = buf.size();
 
-        while(*this->peek(0, error) != delimiter) {
+        while(*this->peek(1, error) != delimiter) {
 
             if(steps + 1 > bufsz) {
                 bufsz += steps + 10;
                 buf.resize(bufsz);
             }
 
-            auto left = this->try_peek(max) ? max : this->end - this->pos - 1;
+            auto left = this->try_peek(max) ? max : this->end - this->pos;
             steps += this->substitute_token(buf, steps, left, tokens...);
         }
 
diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index ea31829..2974fde 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -18,7 +18,7 @@ void In::set(Source source)
 
     } else {
         this->start = this->pos = source.block.ptr;
-        this->end   = this->start + source.block.size + 1;
+        this->end   = this->start + source.block.size;
     }
 }
 
@@ -50,37 +50,48 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
         return false;
     }
 
-    auto left = this->end - this->pos;
+    const size_t left = this->end - this->pos;
 
-    read_len = (nbytes < read_len ? read_len : nbytes) - left;
+    const auto* preserve_from = this->anchor != nullptr ? this->anchor : this->pos;
+    const size_t preserve_pos = preserve_from - this->start;
+    /* small extra margin to make sure memory around the current position will be preserved in any case */
+    const size_t margin_sz   = 32;
+    const size_t margin      = preserve_pos < margin_sz ? preserve_pos : margin_sz;
+    const size_t preserve_sz = (this->end - this->start) - preserve_pos + margin;
 
-    auto preserve_pos = this->anchor != nullptr
-        ? this->anchor - start
-        : (this->end - start) - left;
+    if(preserve_sz > 0) {
+        memmove(this->buffer.data(), this->start + (preserve_pos - margin), preserve_sz);
+    }
 
-    /* small extra margin to make sure memory around the current position will be preserved in any case */
-    const auto margin_sz = 32;
-    auto margin = preserve_pos < margin_sz ? margin_sz - (margin_sz - preserve_pos) : margin_sz;
+    const size_t required = nbytes > left ? nbytes - left : 0;
+    size_t bytes_read = 0;
 
-    auto preserve_sz = this->end - (this->start + preserve_pos - margin);
-    auto bufsz = preserve_sz + read_len;
+    /* the requested size might exceed what the stream is able to deliver, so don't
+     * allocate memory for more than a limited chunk at once */
+    const size_t max_chunk = 1 << 16;
 
-    if(this->buffer.size() < bufsz) {
-        this->buffer.resize(bufsz);
-    }
+    do {
+        auto chunk = required - bytes_read;
+        chunk = chunk < read_len ? read_len : chunk > max_chunk ? max_chunk : chunk;
 
-    if(preserve_sz > 0) {
-        memmove(this->buffer.data(), &this->buffer[preserve_pos - margin], preserve_sz);
-    }
+        if(this->buffer.size() < preserve_sz + bytes_read + chunk) {
+            this->buffer.resize(preserve_sz + bytes_read + chunk);
+        }
+
+        this->stream->read((char*)&this->buffer[preserve_sz + bytes_read], chunk);
+        auto count = (size_t)this->stream->gcount();
+        bytes_read += count;
 
-    this->stream->read((char*)&this->buffer[preserve_sz], read_len);
-    auto bytes_read = (size_t)this->stream->gcount();
+        if(count < chunk) {
+            break;
+        }
 
-    this->pos  = &this->buffer[preserve_sz - left];
-    anchor = anchor ? nullptr : &this->buffer[margin];
+    } while(bytes_read < required);
 
-    this->start = this->buffer.data();
-    this->end   = this->buffer.data() + bytes_read + preserve_sz;
+    this->start  = this->buffer.data();
+    this->end    = this->start + preserve_sz + bytes_read;
+    this->pos    = this->start + preserve_sz - left;
+    this->anchor = this->anchor != nullptr ? this->start + margin : nullptr;
 
     if(bytes_read + left < nbytes) {
         this->eof_reached = true;
diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 1824c2c..9e76f13 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -78,7 +78,7 @@ namespace {
     {
         assert(*source.pointer() == '/');
 
-        if(!source.try_peek(1)) {
+        if(!source.try_peek(2)) {
             return;
         }
 
diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 565efa0..1c17098 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -88,25 +88,22 @@ namespace {
 
     uint64_t decode_integer(In& source)
     {
-        uint8_t  block       = *source.pointer();
+        uint8_t  block       = source.read_move<uint8_t>(error);
         uint64_t out_integer = mask_reset_msb & block;
 
         auto shift = 7U;
         /* first block w/o msb set is the last 8-bit block of the integer to decode */
         while(mask_msb & block) {
-            source.move(1, error);
-            block = *source.pointer();
+            /* no support for integers > 64 bit */
+            if(shift > 9 * 7) {
+                error();
+            }
+
+            block = source.read_move<uint8_t>(error);
             out_integer |= (mask_reset_msb & block) << shift;
             shift += 7;
         }
 
-        /* no support for integers > 64 bit */
-        if(shift > 10 * 7) {
-            error();
-        }
-
-        source.move(1, error);
-
         return out_integer;
     }
 }
-- 
2.43.0


From e17517693070949c87a00d6268768b368302a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 05/55] fix: take the write index into account when growing the
 buffer in conv_charset

---
 src/lib/ToolsStrConv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index c554a22..fa09124 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -379,8 +379,8 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
             auto current = buffer.size();
             auto new_size = buffer.size() + left_in * 4;
             buffer.resize(new_size);
-            converted = current - left_out;
-            left_out = new_size - converted;
+            converted = current - buffer_index - left_out;
+            left_out = new_size - buffer_index - converted;
         }
     }
 
-- 
2.43.0


From 20d02a51a9f29175753ef8813bba607e94a28178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 06/55] fix: decode JSON unicode escapes as big-endian UTF-16
 including surrogate pairs

---
 src/lib/PJson.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 9e76f13..c05bcb9 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -13,20 +13,35 @@ namespace {
         throw Exception("Unable to parse JSON document. Index out of bounds.");
     };
 
+    constexpr array<const char, 2> ar(const char c)
+    {
+        return array<const char, 2> { { '\\', c } };
+    }
+
     const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
-        uint8_t hex_buffer[2];
+        uint8_t hex_buffer[4];
+        size_t  nbytes = 2;
         /* skip "\u" and read 4 hex digits */
         auto block = src.read_block(2 + 4, error);
 
         Tools::hex_to_bytes(hex_buffer, 2, block.ptr + 2, 4);
 
-        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, 2, Encoding::UTF16), buf, true, idx);
-    };
+        /* characters outside of the BMP are encoded as two consecutive literals (surrogate pair) */
+        bool is_high_surrogate = hex_buffer[0] >= 0xD8 && hex_buffer[0] <= 0xDB;
 
-    constexpr array<const char, 2> ar(const char c)
-    {
-        return array<const char, 2> { { '\\', c } };
-    }
+        if(is_high_surrogate && src.is_at_token(ar('u'))) {
+            block = src.read_block(2 + 4, error);
+            Tools::hex_to_bytes(hex_buffer + 2, 2, block.ptr + 2, 4);
+            nbytes = 4;
+        }
+
+        /* literals are big-endian, utf-16 strings are expected to be little-endian */
+        for(size_t i = 0; i < nbytes; i += 2) {
+            swap(hex_buffer[i], hex_buffer[i + 1]);
+        }
+
+        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, nbytes, Encoding::UTF16), buf, true, idx);
+    };
 
     void write_escape(const MemBlock& str, Out& out)
     {
-- 
2.43.0


From 703309239b289e9d2d2e84a739a8cd6733aec2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 07/55] fix: escape all control characters in JSON strings

---
 src/lib/PJson.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index c05bcb9..6455b1d 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -45,10 +45,23 @@ namespace {
 
     void write_escape(const MemBlock& str, Out& out)
     {
-        out.write_substitute(str,
-            '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
-            '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
-        );
+        const char hex[] = "0123456789ABCDEF";
+
+        for(size_t i = 0; i < str.size; i++) {
+            auto c = str.ptr[i];
+
+            if(c < 0x20 && c != '\n' && c != '\t' && c != '\r' && c != '\b' && c != '\f') {
+                /* control characters without a shorthand */
+                const uint8_t literal[] { '\\', 'u', '0', '0', (uint8_t)hex[c >> 4], (uint8_t)hex[c & 0x0F] };
+                out.write(literal, sizeof(literal));
+                continue;
+            }
+
+            out.write_substitute(MemBlock(str.ptr + i, 1),
+                '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
+                '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
+            );
+        }
     }
 
     MemBlock read_unescape(In& in, vector<uint8_t>& buffer)
-- 
2.43.0


From 28451ddecf24b6d5da85623f5e3807d2d9ee61c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 08/55] fix: escape JSON field names

---
 src/lib/PJson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 6455b1d..0e36650 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -135,7 +135,7 @@ void PJson::write(const Value& value, const MemBlock& name, Out& out)
        this->scope_type != Type::Array &&
        type != Type::Scope_End) {
 
-        insert_in_quotes(out, name);
+        insert_in_quotes(out, name, true);
         out.write(':');
 
         if(!this->compact) {
-- 
2.43.0


From c7a33bad91a374696b621e0fae400f1126f08f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 09/55] fix: do not treat the end of a JSON block comment as
 start of another comment

---
 src/lib/PJson.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 0e36650..b6d81c8 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -111,7 +111,10 @@ namespace {
         }
 
         if(*(source.pointer() + 1) == '*') {
+            /* skip the opening delimiter, end up at the slash closing the comment */
+            source.move(2, error);
             source.move_until(error, array<const char, 2> { { '*', '/' } });
+            source.move(1, error);
             return;
         }
 
-- 
2.43.0


From a6f24a926eb65a97988f99c6875c7639d4062e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 10/55] fix: do not convert 2^63 to a negative integer when
 writing floating point as text

---
 src/lib/ToolsStrConv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index fa09124..0eafe58 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -134,7 +134,7 @@ namespace {
     {
         double val = type == Type::FP64 ? value.pblock().fp64 : value.pblock().fp32;
 
-        if(floor(val) == val && val <= (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
+        if(floor(val) == val && val < (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
 
             return conv_type<Type::I64>((int64_t)val, out);
         }
-- 
2.43.0


From eff8599bfbd3cbb95f967ba15d6a9fbbb3b7ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 11/55] fix: detect every overflow when parsing integers

---
 src/lib/ToolsStrConv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 0eafe58..233bc30 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -67,7 +67,7 @@ namespace {
             }
 
             tmp = val * 10 + c - '0';
-            if(tmp < val) {
+            if(val > numeric_limits<uint64_t>::max() / 10 || tmp < val * 10) {
                 /* overflow */
                 break;
             }
-- 
2.43.0


From 4c729dcc87f2ebb57ddced27b4ac0f6ce548bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 12/55] fix: allow JSON comments directly behind literals

---
 src/lib/PJson.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index b6d81c8..be3701b 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -321,13 +321,14 @@ void PJson::process_char(In& source, State& state, bool& out_move)
         bool likely_fp = false;
         In::Notify dec ('.', likely_fp);
 
-        auto block = source.read_block_until(error, ',', ' ', '}', ']', dec);
+        auto block = source.read_block_until(error, ',', ' ', '}', ']', '/', dec);
 
         this->process_literal(block, state, likely_fp ? Type::FP64 : Type::Null);
 
-        if(*source.pointer() == '}' || *source.pointer() == ']') {
+        if(*source.pointer() == '}' || *source.pointer() == ']' || *source.pointer() == '/') {
             /* The bracket has a double meaning here, first it delimits the literal,
-             * and second it closes the scope. So make sure it will be processed. */
+             * and second it closes the scope. So make sure it will be processed.
+             * Same goes for the start of a comment. */
             out_move = false;
         }
     }
-- 
2.43.0


From cf665bb4295c945cdee8314f43ec074e14869aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 13/55] fix: hand over the memory of the entries when moving a
 hash table

---
 include/Srl/Hash.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index a25c667..f6310f2 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -19,12 +19,17 @@ namespace Srl { namespace Lib {
         m.limit    = 0;
         m.elements = 0;
 
+        this->heap = std::move(m.heap);
+
         this->cap         = m.cap;
         this->load_factor = m.load_factor;
 
         this->table     = m.table;
         this->mem_cache = std::move(m.mem_cache);
 
+        m.table = nullptr;
+        m.mem_cache.clear();
+
         return *this;
     }
 
-- 
2.43.0


From 290d85e6f14e9ba1b154de7e5009e5fc00e6dffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 14/55] fix: keep the function of a ScopeWrap alive

---
 include/Srl/ScopeWrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/ScopeWrap.h b/include/Srl/ScopeWrap.h
index a6b6f6f..e91642d 100644
--- a/include/Srl/ScopeWrap.h
+++ b/include/Srl/ScopeWrap.h
@@ -23,7 +23,7 @@ namespace Srl {
 
     private:
         const Type scope_type;
-        const std::function<void(Node&)>& fn_insert;
+        const std::function<void(Node&)> fn_insert;
 
     };
 }
-- 
2.43.0


From 742812566540aa9f78cc2838449f46d18a31ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 15/55] fix: MessagePack lengths are big-endian

---
 src/lib/PMsgPack.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index c4ba12e..bd1a45b 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -135,12 +135,12 @@ namespace {
             out.write_byte(block.size);
 
         } else if (block.size <= 0xFFFE) {
-            uint16_t sz = block.size;
+            uint16_t sz = swap_bytes((uint16_t)block.size);
             out.write_byte(0xC5);
             out.write(sz);
 
         } else {
-            uint32_t sz = block.size;
+            uint32_t sz = swap_bytes((uint32_t)block.size);
             out.write_byte(0xC6);
             out.write(sz);
         }
@@ -162,12 +162,12 @@ namespace {
             out.write_byte(block.size);
 
         } else if (block.size <= 0xFFFE) {
-            uint16_t sz = block.size;
+            uint16_t sz = swap_bytes((uint16_t)block.size);
             out.write_byte(0xDA);
             out.write(sz);
 
         } else {
-            uint32_t sz = block.size;
+            uint32_t sz = swap_bytes((uint32_t)block.size);
             out.write_byte(0xDB);
             out.write(sz);
         }
@@ -284,8 +284,8 @@ namespace {
 
         return prefix >= 0xA0 && prefix <= 0xBF ? (prefix & 0x1F)
              : prefix == 0xD9 ? in.read_move<uint8_t>(error)
-             : prefix == 0xDA ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xDA ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     size_t get_bin_size(uint8_t prefix, In& in)
@@ -293,8 +293,8 @@ namespace {
         assert(prefix_is_bin(prefix));
 
         return prefix == 0xC4 ? in.read_move<uint8_t>(error)
-             : prefix == 0xC5 ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xC5 ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     Value read_str(uint8_t prefix, In& in)
-- 
2.43.0


From 59c771d5abd9b015d055b6ae0de83fdf86bbbfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 16/55] fix: reject unused and unsupported MessagePack prefixes
 instead of reading them as numbers

---
 src/lib/PMsgPack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index bd1a45b..23aa60f 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -240,7 +240,7 @@ namespace {
     {
         return (prefix >= 0xCA && prefix <= 0xD3) || // integers / floats
                 prefix <= 0x7F || prefix >= 0xE0  || // pos fixnum / neg fixnum
-                prefix == 0xC2 || prefix <= 0xC3  || // true / false
+                prefix == 0xC2 || prefix == 0xC3  || // true / false
                 prefix == 0xC0;                      // null
     }
 
-- 
2.43.0


From 563abbae87949734ebfe5a3b09cb2f976f82bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 17/55] fix: skip MessagePack keys which are not strings
 completely

---
 src/lib/PMsgPack.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index 23aa60f..f8d8653 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -434,7 +434,21 @@ pair<MemBlock, Value> PMsgPack::read(In& source)
 
 
     if(this->scope && this->scope->type == Type::Object) {
-        name = prefix_is_str(prefix) ? read_name(prefix, this->buffer, source) : name;
+
+        if(prefix_is_str(prefix)) {
+            name = read_name(prefix, this->buffer, source);
+
+        } else if(prefix_is_scalar(prefix)) {
+            /* only strings are supported as keys, make sure the key gets skipped completely */
+            read_scalar(prefix, source);
+
+        } else if(prefix_is_bin(prefix)) {
+            read_bin(prefix, source);
+
+        } else {
+            error();
+        }
+
         prefix = source.read_move<uint8_t>(error);
 
     }
-- 
2.43.0


From e4cd88381186d4fa5bc883868c66d7720c94969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 18/55] fix: leave direct output mode if storing or packing
 throws

---
 include/Srl/Environment.h |  7 +++++++
 include/Srl/Tree.hpp      | 13 ++++++-------
 src/lib/Tree.cpp          | 14 +++++++-------
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 5163c0c..8291de4 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -77,6 +77,13 @@ namespace Lib {
 
         std::pair<const String*, size_t> store_string (const String& str);
 
+        /* direct output of items to a parser, leaves the environment usable if serializing fails */
+        struct ParsingScope {
+            ParsingScope(Environment& env_) : env(env_) { env.parsing = true; }
+            ~ParsingScope() { env.parsing = false; }
+            Environment& env;
+        };
+
         void clear();
 
     };
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index a05fbba..4214fa9 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -56,15 +56,14 @@ namespace Srl {
         }
 
         this->env->set_output(parser, out);
-        this->env->parsing = true;
+        {
+            Lib::Environment::ParsingScope parsing(*this->env);
 
-        this->env->write(Value(Type::Object), "");
-
-        this->root_node->insert(items...);
-
-        this->env->write(Value(Type::Scope_End), "");
+            this->env->write(Value(Type::Object), "");
+            this->root_node->insert(items...);
+            this->env->write(Value(Type::Scope_End), "");
+        }
 
-        this->env->parsing = false;
         this->env->out.flush();
     }
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 680928c..7abbd28 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -55,16 +55,16 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
         this->create_env();
     }
     this->env->set_output(parser, source);
-    this->env->parsing = true;
+    {
+        Environment::ParsingScope parsing(*this->env);
 
-    auto& name = this->root_node->name();
-    this->env->write(Value(type), name);
+        auto& name = this->root_node->name();
 
-    store_switch();
-
-    this->env->write(Value(Type::Scope_End), name);
+        this->env->write(Value(type), name);
+        store_switch();
+        this->env->write(Value(Type::Scope_End), name);
+    }
 
-    this->env->parsing = false;
     this->env->out.flush();
 }
 
-- 
2.43.0


From b4a000620c60c6d005869e04aa4ed143529508ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 19/55] fix: do not access the parser of a finished or failed
 restore

---
 include/Srl/Tree.h   |  7 +++++++
 include/Srl/Tree.hpp |  3 +--
 src/lib/Tree.cpp     | 13 +++++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Tree.h b/include/Srl/Tree.h
index 7d890d1..018441f 100644
--- a/include/Srl/Tree.h
+++ b/include/Srl/Tree.h
@@ -76,6 +76,13 @@ namespace Srl {
 
         Node* root_node = nullptr;
 
+        /* items are read on demand while restoring, the parser must not be accessed afterwards */
+        struct RestoreScope {
+            RestoreScope(Node& node);
+            ~RestoreScope();
+            Node& node;
+        };
+
         void to_source(Type type, Parser& parser, Lib::Out::Source out, const std::function<void()>& store_switch);
 
         void read_source (Parser& parser, Lib::In::Source source);
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index 4214fa9..7d5514d 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -72,8 +72,7 @@ namespace Srl {
     {
         this->prologue_in(parser, in);
 
-        this->root_node->parsed = false;
-
+        RestoreScope restoring(*this->root_node);
         this->root_node->paste(items...);
     }
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 7abbd28..9fbc06a 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -77,11 +77,20 @@ void Tree::read_source(Parser& parser, In::Source source)
 void Tree::read_source(Parser& parser, In::Source source, const function<void()>& restore_switch)
 {
     prologue_in(parser, source);
-    this->root_node->parsed = false;
-
+    RestoreScope restoring(*this->root_node);
     restore_switch();
 }
 
+Tree::RestoreScope::RestoreScope(Node& node_) : node(node_)
+{
+    this->node.parsed = false;
+}
+
+Tree::RestoreScope::~RestoreScope()
+{
+    this->node.parsed = true;
+}
+
 Node& Tree::root()
 {
     if(!this->env) {
-- 
2.43.0


From 650db76b27a3cee424ef48c0a33a7d32b1bc658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 20/55] fix: set the scope type of the root node when loading
 objects

---
 include/Srl/Tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index 7d5514d..e2014b9 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -159,6 +159,7 @@ namespace Srl {
     void Tree::load_object(const T& type)
     {
         this->clear();
+        this->root().scope_type = Lib::Aux::TypeSwitch<T>::type;
         Lib::Aux::TypeSwitch<T>::Insert(type, *this);
     }
 }
-- 
2.43.0


From cef5d52702f52a046a8bcf5434f5205556b72ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 21/55] fix: seek relative to the initial position of the
 output stream

---
 include/Srl/Out.h   | 2 ++
 include/Srl/Out.hpp | 7 +++++--
 src/lib/Out.cpp     | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Out.h b/include/Srl/Out.h
index ba9ac30..50b55df 100644
--- a/include/Srl/Out.h
+++ b/include/Srl/Out.h
@@ -71,6 +71,8 @@ namespace Srl { namespace Lib {
 
         bool streaming;
         std::ostream* stream = nullptr;
+        /* initial position of the stream */
+        std::streamoff stream_pos = 0;
         std::vector<uint8_t>* buffer = nullptr;
 
         void inc_cap          (size_t nbytes);
diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index f653d2c..108eafd 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -1,6 +1,7 @@
 #ifndef SRL_OUT_HPP
 #define SRL_OUT_HPP
 
+#include "Exception.h"
 #include "Out.h"
 #include "Aux.h"
 
@@ -48,8 +49,10 @@ namespace Srl { namespace Lib {
 
         } else {
             auto crr = this->stream->tellp();
-
-            this->stream->seekp(ticket.pos + offset);
+            if(this->stream_pos < 0 || crr == std::ostream::pos_type(-1)) {
+                throw Exception("Unable to write to stream. Stream is not seekable.");
+            }
+            this->stream->seekp(this->stream_pos + (std::streamoff)(ticket.pos + offset));
             this->stream->write((const char*)bytes, nbytes);
 
             this->stream->seekp(crr);
diff --git a/src/lib/Out.cpp b/src/lib/Out.cpp
index 39ae254..3819a53 100644
--- a/src/lib/Out.cpp
+++ b/src/lib/Out.cpp
@@ -12,6 +12,7 @@ void Out::set(Source source)
 
     this->streaming = source.is_stream;
     this->stream = source.is_stream ? source.stream : nullptr;
+    this->stream_pos = source.is_stream ? (streamoff)source.stream->tellp() : 0;
     this->buffer = !source.is_stream ? source.buffer : nullptr;
 }
 
-- 
2.43.0


From 74ab47ac9c793058fdc843c64454103cb6440651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 22/55] fix: sizes of wide character arrays

---
 include/Srl/Resolve.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 499f8a8..f22762a 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -175,7 +175,7 @@ namespace Srl { namespace Lib {
         static WrapArray(const T& str)
         {
             size_t size = 0;
-            while(size < str_size && str[size]) size++;
+            while(size < std::extent<T>::value - 1 && str[size]) size++;
 
             return MemBlock(reinterpret_cast<const uint8_t*>(str), size * chr_size);
         }
@@ -207,7 +207,7 @@ namespace Srl { namespace Lib {
 
                 Aux::check_size_max(str_size, conv_size, id);
                 memcpy(str, buffer.data(), conv_size);
-                str[value.size() / chr_size] = 0;
+                str[conv_size / chr_size] = 0;
             }
         }
     };
-- 
2.43.0


From a5bf4bd766fb719e6fce732f61a7040b6d75185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 23/55] fix: keep the object of a pointer valid if restoring it
 fails

---
 include/Srl/Resolve.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index f22762a..5189593 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -454,12 +454,12 @@ namespace Srl { namespace Lib {
             String type_id;
             ctx(Aux::str_type_id, type_id);
 
+            auto uptr = Lib::registrations()->create<U>(type_id);
+            uptr->srl_resolve(ctx);
+
             if(o != nullptr) {
                 delete o;
             }
-
-            auto uptr = Lib::registrations()->create<U>(type_id);
-            uptr->srl_resolve(ctx);
             o = uptr.release();
         }
     };
@@ -703,19 +703,16 @@ namespace Srl { namespace Lib {
         static void Paste(T& p, Item& item, const ID& id = Aux::str_empty)
         {
 
-            if(p != nullptr) {
-                delete p;
-            }
-
-            auto val_type = item.type();
+            std::unique_ptr<E> uptr;
 
-            if(val_type == Type::Null) {
-                p = nullptr;
-                return;
+            if(item.type() != Type::Null) {
+                uptr = Ctor<E>::Create_New();
+                Switch<E>::Paste(*uptr.get(), item, id);
             }
 
-            auto uptr = Ctor<E>::Create_New();
-            Switch<E>::Paste(*uptr.get(), item, id);
+            if(p != nullptr) {
+                delete p;
+            }
             p = uptr.release();
         }
     };
-- 
2.43.0


From 71eb416d8336cf8be06a2ad5db962a917c14493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 24/55] fix: check the index in Node::get

---
 src/lib/Node.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index a1e792f..042f8b7 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -238,8 +238,7 @@ Union Node::get(size_t index)
         return Union(resnode->field);
     }
 
-    auto* resvalue = get_link_at_index<None>(index, this->values);
-
+    auto* resvalue = get_link_at_index<Throw>(index, this->values);
     return Union(resvalue->field);
 }
 
-- 
2.43.0


From 0172ebbc33470dae6183fbdec594d7a3728a412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 25/55] fix: serialize nodes which have no name

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 042f8b7..2a9bce1 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -507,7 +507,7 @@ void Node::to_source()
     }
 
     Value scope_end = Value(Type::Scope_End);
-    this->env->write(scope_end, *this->name_ptr);
+    this->env->write(scope_end, this->name());
 }
 
 void Node::consume_scope()
-- 
2.43.0


From 90a88c720eedf44e38f6d83be76a00a815022ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 26/55] fix: write elements of an initializer_list into their
 own scope when packing

---
 include/Srl/Node.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index 9dbe0a0..8140311 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -26,9 +26,20 @@ namespace Srl {
     template<class T>
     Node& Node::insert(const String& field_name, const std::initializer_list<T>& elements)
     {
-        auto& new_node = this->insert_node(Type::Array, field_name);
-        for(auto& e : elements) {
-           new_node.insert(e);
+        if(this->env->parsing) {
+            this->env->write(Value(Type::Array), field_name);
+
+            for(auto& e : elements) {
+                this->insert(e);
+            }
+
+            this->env->write(Value(Type::Scope_End), field_name);
+
+        } else {
+            auto& new_node = this->insert_node(Type::Array, field_name);
+            for(auto& e : elements) {
+               new_node.insert(e);
+            }
         }
         return *this;
     }
-- 
2.43.0


From d4b60fc60236b1f663b8ac50721c3c469a1e62ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 27/55] fix: do not accept too many elements when restoring
 fixed size arrays

---
 include/Srl/Resolve.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 5189593..d59ba61 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -608,6 +608,13 @@ namespace Srl { namespace Lib {
                 }
 
                 Aux::check_size(len, count, id);
+
+                if(!node.parsed) {
+                    auto itm = node.consume_item<E>();
+                    if(!node.parsed) {
+                        Aux::throw_error("More elements than expected.", id);
+                    }
+                }
             }
         }
     };
-- 
2.43.0


From de7b8b124a78c551f4cdf0c87b3b46ae26a26f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 28/55] fix: restore null as empty unique_ptr

---
 include/Srl/Resolve.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index d59ba61..a468b8b 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -738,6 +738,10 @@ namespace Srl { namespace Lib {
         template<class Item, class ID = String>
         static void Paste(T& p, Item& item, const ID& id = Aux::str_empty)
         {
+            if(item.type() == Type::Null) {
+                p.reset();
+                return;
+            }
             E* content = nullptr;
             Apply(content, item, id);
             p = T(content);
-- 
2.43.0


From a22c2d22d3c671625b2c2ec5909b95ab9c07f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 29/55] fix: restore null pointers to objects

---
 include/Srl/Node.h    |  6 ++++--
 include/Srl/Node.hpp  | 19 ++++++++++++++++++-
 include/Srl/Resolve.h | 15 +++++++++++++++
 src/lib/Node.cpp      | 25 ++++++++++++++++++++++---
 4 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 3d69ae0..b80e7f4 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -137,14 +137,16 @@ namespace Srl {
         void  read_source (int scope_depth = 0);
 
         void  consume_scope ();
-        Node  consume_node  (bool throw_ex, const String& name);
+        Node  consume_node  (bool throw_ex, const String& name, bool* is_null = nullptr);
         Value consume_value (bool throw_ex, const String& name);
 
-        Node  consume_node  (bool throw_ex, size_t idx);
+        Node  consume_node  (bool throw_ex, size_t idx, bool* is_null = nullptr);
         Value consume_value (bool throw_ex, size_t idx);
 
         Union consume_item(const String& name, bool throw_err = true);
 
+        bool is_null_field (const String& name);
+        bool is_null_field (size_t) { return false; }
         template<class T>
         typename std::enable_if<!TpTools::is_scope(Lib::Switch<T>::type), Value>::type
         consume_item();
diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index 8140311..8920619 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -117,11 +117,28 @@ namespace Srl {
     typename std::enable_if<!std::is_same<T, Srl::Union>::value && TpTools::is_scope(Lib::Switch<T>::type), void>::type
     Node::paste_field (const ID& fieldID, T& o)
     {
+        /* null pointers to objects are stored as values */
+        constexpr bool nullable = Lib::is_nullable<T>::value;
+
         if(this->parsed) {
+            if constexpr(nullable) {
+                if(this->is_null_field(fieldID)) {
+                    Lib::reset_ptr(o);
+                    return;
+                }
+            }
             Lib::Switch<T>::Paste(o, this->node(fieldID), fieldID);
 
         } else {
-            auto itm = this->consume_node(true, fieldID);
+            bool is_null = false;
+            auto itm = this->consume_node(true, fieldID, nullable ? &is_null : nullptr);
+
+            if constexpr(nullable) {
+                if(is_null) {
+                    Lib::reset_ptr(o);
+                    return;
+                }
+            }
             Lib::Switch<T>::Paste(o, itm, fieldID);
             itm.consume_scope();
         }
diff --git a/include/Srl/Resolve.h b/include/Srl/Resolve.h
index 8ea8896..2107960 100644
--- a/include/Srl/Resolve.h
+++ b/include/Srl/Resolve.h
@@ -118,6 +118,21 @@ namespace Lib {
         static const bool value = true;
     };
 
+    /* pointers to objects which are stored as null value if they are empty */
+    template<class T> struct is_nullable {
+        static const bool value = std::is_pointer<T>::value || is_unique_ptr<T>::value;
+    };
+
+    template<class T> void reset_ptr(T*& p)
+    {
+        delete p;
+        p = nullptr;
+    }
+
+    template<class T> void reset_ptr(std::unique_ptr<T>& p)
+    {
+        p.reset();
+    }
     template<class T> struct is_weak_ptr {
         static const bool value = false;
     };
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 2a9bce1..9f733e2 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -325,7 +325,18 @@ Union Node::consume_item(const String& id, bool throw_err)
     return Union();
 }
 
-Node Node::consume_node(bool throw_ex, const String& id)
+bool Node::is_null_field(const String& id)
+{
+    if(find_link<Name>(id, this->nodes)) {
+        return false;
+    }
+
+    auto* link = find_link<Name>(id, this->values);
+
+    return link && link->field.type() == Type::Null;
+}
+
+Node Node::consume_node(bool throw_ex, const String& id, bool* is_null)
 {
     auto stored_itr = find_link_iterator(id, this->nodes, *this->env);
 
@@ -335,8 +346,12 @@ Node Node::consume_node(bool throw_ex, const String& id)
         return stored_field;
     }
 
-    auto id_conv = this->env->conv_string(id);
+    if(is_null && this->is_null_field(id)) {
+        *is_null = true;
+        return Node(this->env->tree);
+    }
 
+    auto id_conv = this->env->conv_string(id);
     while(!this->parsed) {
 
         MemBlock seg_name; Value val;
@@ -358,6 +373,10 @@ Node Node::consume_node(bool throw_ex, const String& id)
             link->field.read_source();
 
         } else {
+            if(is_null && tp == Type::Null && compare(id_conv, seg_name)) {
+                *is_null = true;
+                return Node(this->env->tree);
+            }
             this->env->store_value(*this, val, seg_name);
         }
     }
@@ -414,7 +433,7 @@ Value Node::consume_value(bool throw_ex, const String& id)
 }
 
 
-Node Node::consume_node(bool throw_ex, size_t)
+Node Node::consume_node(bool throw_ex, size_t, bool*)
 {
     if(this->nodes.size() > 0) {
         auto itr = this->nodes.begin();
-- 
2.43.0


From 42bf49149339b09cef030ceb5f001a1750df04bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 30/55] fix: restore empty shared_ptr and weak_ptr

---
 include/Srl/Resolve.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index a468b8b..2820571 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -772,13 +772,18 @@ namespace Srl { namespace Lib {
         static void Insert(const T& p, Node& node, const String& name)
         {
             if(!p) {
-                Switch<std::nullptr_t>::Insert(nullptr, node, name);
+                node.open_scope(&Insert_Null, Type::Object, name, p);
                 return;
             }
             auto key = node.insert_shared(p.get());
             node.open_scope(&Insert_Key, Type::Object, name, p, !key.first, key.second);
         }
 
+        static void Insert_Null(Node& node, const T&)
+        {
+            Switch<std::nullptr_t>::Insert(nullptr, node, Aux::str_shared_key);
+        }
+
         static void Insert_Key(Node& node, const T& p, const bool& first, const uint64_t& key)
         {
             node.insert_value(key, Aux::str_shared_key);
@@ -790,10 +795,17 @@ namespace Srl { namespace Lib {
         template<class ID = String>
         static void Paste(T& p, Node& node, const ID& = Aux::str_empty)
         {
-            uint64_t key = node.unwrap_field<uint64_t>(Aux::str_shared_key);
+            std::unique_ptr<uint64_t> key;
+            node.paste_field(Aux::str_shared_key, key);
+
+            if(!key) {
+                p.reset();
+                return;
+            }
+
             bool inserted_new; std::shared_ptr<void>* sptr;
 
-            std::tie(inserted_new, sptr) = node.find_shared(key, [&p, &node] {
+            std::tie(inserted_new, sptr) = node.find_shared(*key, [&p, &node] {
                 E* e = nullptr;
                 Apply(e, node);
                 p = std::shared_ptr<E>(e);
-- 
2.43.0


From 2b902b72877b99bac5a62fc60e4e5115559f3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 31/55] fix: keep keys of shared objects separate for every
 stored document

---
 include/Srl/Environment.h | 46 ++++++++++++++++++++++++++++++++++++---
 include/Srl/Node.h        |  2 +-
 include/Srl/Resolve.hpp   |  2 +-
 src/lib/Node.cpp          | 12 +++++-----
 4 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 8291de4..b7e5f1a 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -9,6 +9,7 @@
 #include "Out.h"
 
 #include <list>
+#include <memory>
 
 namespace Srl {
 
@@ -37,8 +38,46 @@ namespace Lib {
         }
     };
 
-    struct Environment {
+    /* keys of stored shared objects */
+    class SharedTable {
+
+    public:
+        /* -> pair of { object exists, key } */
+        std::pair<bool, uint64_t> insert(const std::shared_ptr<const void>& obj)
+        {
+            bool exists; Entry* entry;
+            std::tie(exists, entry) = this->entries.insert(obj.get(), Entry { obj, this->num_keys });
+
+            if(exists && entry->object.expired()) {
+                /* different object at the address of a deleted one */
+                *entry = Entry { obj, this->num_keys };
+                exists = false;
+            }
 
+            if(!exists) {
+                this->num_keys++;
+            }
+
+            return { exists, entry->key };
+        }
+
+        void clear()
+        {
+            this->entries.clear();
+            this->num_keys = 0;
+        }
+
+    private:
+        struct Entry {
+            std::weak_ptr<const void> object;
+            uint64_t key;
+        };
+
+        HTable<const void*, Entry> entries { 16 };
+        uint64_t num_keys = 0;
+    };
+
+    struct Environment {
         static const String EmptyString;
         static const Encoding Str_Encoding = Encoding::UTF8;
 
@@ -48,7 +87,8 @@ namespace Lib {
         Heap                   heap;
         HTable<String, String> str_table;
 
-        HTable<const void*, size_t>           shared_table_store   { 16 };
+        SharedTable                           shared_table_store;
+        SharedTable                           shared_table_direct;
         HTable<size_t, std::shared_ptr<void>> shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
@@ -80,7 +120,7 @@ namespace Lib {
         /* direct output of items to a parser, leaves the environment usable if serializing fails */
         struct ParsingScope {
             ParsingScope(Environment& env_) : env(env_) { env.parsing = true; }
-            ~ParsingScope() { env.parsing = false; }
+            ~ParsingScope() { env.parsing = false; env.shared_table_direct.clear(); }
             Environment& env;
         };
 
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index b80e7f4..0a803c1 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -126,7 +126,7 @@ namespace Srl {
         void open_scope (void (*Insert)(Node& node, const Args&... args),
                          Type node_type, const String& name, const Args&... args);
 
-        std::pair<bool, uint64_t> insert_shared (const void* obj);
+        std::pair<bool, uint64_t> insert_shared (const std::shared_ptr<const void>& obj);
         std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::function<std::shared_ptr<void>(void)>& create);
 
         Node& insert_node  (const Node& node, const String& name);
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 2820571..9381dff 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -775,7 +775,7 @@ namespace Srl { namespace Lib {
                 node.open_scope(&Insert_Null, Type::Object, name, p);
                 return;
             }
-            auto key = node.insert_shared(p.get());
+            auto key = node.insert_shared(p);
             node.open_scope(&Insert_Key, Type::Object, name, p, !key.first, key.second);
         }
 
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 9f733e2..dae167d 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -553,14 +553,14 @@ void Node::consume_scope()
     }
 }
 
-pair<bool, uint64_t> Node::insert_shared (const void* obj)
+pair<bool, uint64_t> Node::insert_shared (const shared_ptr<const void>& obj)
 {
-    bool exists; size_t* key;
-    auto& table = this->env->shared_table_store;
+    /* the tree does not contain objects written directly to a parser */
+    auto& table = this->env->parsing
+        ? this->env->shared_table_direct
+        : this->env->shared_table_store;
 
-    tie(exists, key) = table.insert(obj, table.num_entries());
-
-    return { exists, *key };
+    return table.insert(obj);
 }
 
 pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const function<shared_ptr<void>(void)>& create)
-- 
2.43.0


From bec1a32c779deca51dc53c76d4425b3a8e821e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 32/55] fix: validate base64 strings completely

---
 include/Srl/Resolve.hpp  |  8 ++------
 src/lib/ToolsBtsConv.cpp | 36 +++++++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 9381dff..2d8b2ac 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -886,17 +886,13 @@ namespace Srl { namespace Lib {
             }
             uint8_t* data_dst = wrap.alloc(size);
 
-            if(size == 0) {
-                return;
-            }
-
-            if(data_dst == nullptr) {
+            if(data_dst == nullptr && size > 0) {
                 Aux::throw_error("Nullptr received form alloc() in BitWrap.", id);
             }
 
             if(value.type() == Type::String) {
                 Tools::base64_to_bytes(data_dst, size, (const char*)mem_block.ptr, mem_block.size);
-            } else {
+            } else if(size > 0) {
                 memcpy(data_dst, mem_block.ptr, size);
             }
         }
diff --git a/src/lib/ToolsBtsConv.cpp b/src/lib/ToolsBtsConv.cpp
index a500d98..820b547 100644
--- a/src/lib/ToolsBtsConv.cpp
+++ b/src/lib/ToolsBtsConv.cpp
@@ -85,8 +85,9 @@ size_t Tools::get_base64_decoded_size(const char* str, size_t str_len)
         return 0;
     }
 
-    auto rem  = str[str_len - 1] == '=' ? 1 : 0;
-         rem += str[str_len - 2] == '=' ? 1 : 0;
+    auto rem = str[str_len - 1] != '=' ? 0
+             : str[str_len - 2] != '=' ? 1
+             : 2;
 
     return (str_len / 4) * 3 - rem;
 }
@@ -105,18 +106,31 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
 {
     Base64Table table;
 
-    if(str_len > 0 && str_len % 4 != 0) {
+    if(str_len % 4 != 0) {
         throw Exception("Unable to convert base64 string to binary data." \
                         " Size of source must be a multiple of 4." );
     }
 
-    for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size;
+    auto decoded_size = get_base64_decoded_size(str, str_len);
+
+    if(dest_size < decoded_size) {
+        throw Exception("Unable to convert base64 string to binary data. Destination buffer too small.");
+    }
+
+    /* equals signs are valid only at the end of the last group */
+    auto num_padding = (str_len / 4) * 3 - decoded_size;
+
+    if(find(str, str + str_len, '=') != str + str_len - num_padding) {
+        throw Exception("Unable to convert base64 string to binary data. String malformed.");
+    }
+
+    for(size_t in_idx = 0, out_idx = 0; in_idx < str_len;
                out_idx += 3, in_idx += 4) {
 
-        uint8_t b0 = table.decode[ (size_t) str[in_idx] ],
-                b1 = table.decode[ (size_t) str[in_idx + 1] ],
-                b2 = table.decode[ (size_t) str[in_idx + 2] ],
-                b3 = table.decode[ (size_t) str[in_idx + 3] ];
+        uint8_t b0 = table.decode[ (uint8_t) str[in_idx] ],
+                b1 = table.decode[ (uint8_t) str[in_idx + 1] ],
+                b2 = table.decode[ (uint8_t) str[in_idx + 2] ],
+                b3 = table.decode[ (uint8_t) str[in_idx + 3] ];
 
         if(b0 == table.val_invalid || b1 == table.val_invalid ||
            b2 == table.val_invalid || b3 == table.val_invalid) {
@@ -125,16 +139,16 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
         /* [BBBBBB BB]BBBB BBBBBB BBBBBB */
         dest[out_idx] = b0 << 2 | b1 >> 4;
         /* PPPPPP PP[BBBB BBBB]BB BBBBBB */
-        if(out_idx + 1 < dest_size) {
+        if(out_idx + 1 < decoded_size) {
             dest[out_idx + 1] = b1 << 4 | b2 >> 2;
         }
         /* PPPPPP PPPPPP PPPP[BB BBBBBB] */
-        if(out_idx + 2 < dest_size) {
+        if(out_idx + 2 < decoded_size) {
             dest[out_idx + 2] = b2 << 6 | b3;
         }
     }
 
-    return get_base64_decoded_size(str, str_len);
+    return decoded_size;
 }
 
 vector<uint8_t> Tools::bytes_to_hex(const uint8_t* bytes, size_t nbytes)
-- 
2.43.0


From 905f885067ed1b27637ac5b4a48f0650e695d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 33/55] fix: check the size of data restored by VecWrap

---
 include/Srl/BitWrap.h    | 4 ++++
 src/lib/ToolsBtsConv.cpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/include/Srl/BitWrap.h b/include/Srl/BitWrap.h
index dc0b176..2296d49 100644
--- a/include/Srl/BitWrap.h
+++ b/include/Srl/BitWrap.h
@@ -3,6 +3,7 @@
 
 #include "Blocks.h"
 #include "Common.h"
+#include "Exception.h"
 #include "Srl/Resolve.h"
 
 #include <functional>
@@ -42,6 +43,9 @@ namespace Srl {
                 (uint8_t*)vec->data(), vec->size() * sizeof(T),
                 [this](size_t sz)
                 {
+                    if(sz % sizeof(T) != 0) {
+                        throw Exception("Unable to restore VecWrap. Size of data is not a multiple of the element size.");
+                    }
                     vec->resize(sz / sizeof(T));
                     bitwrap.data = { (uint8_t*)vec->data(), sz };
                     return (uint8_t*)vec->data();
diff --git a/src/lib/ToolsBtsConv.cpp b/src/lib/ToolsBtsConv.cpp
index 820b547..e27dbda 100644
--- a/src/lib/ToolsBtsConv.cpp
+++ b/src/lib/ToolsBtsConv.cpp
@@ -1,6 +1,8 @@
 #include "Srl/Srl.h"
 #include "Srl/Lib.h"
 
+#include <algorithm>
+
 using namespace std;
 using namespace Srl;
 using namespace Lib;
-- 
2.43.0


From d46a61c82dece2f7f9adba1fb66b1768fbe9e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 34/55] fix: convert pointers to registered classes to their
 base and check that it is one

---
 include/Srl/Registration.h | 55 +++++++++++++++++++++++++++++++-------
 src/lib/Registration.cpp   |  6 ++---
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index 86c7a7a..a6c37c4 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -12,16 +12,45 @@ namespace Srl {
 
     namespace Lib {
 
+        namespace Aux {
+
+            template<class T>
+            void raise_pointer(void* ptr) { throw (T*)ptr; }
+
+            /* cast to the type or a base of the type known to 'raise', nullptr if there is no such conversion */
+            template<class T>
+            T* cast_pointer(void* ptr, void (*raise)(void*))
+            {
+                if(raise == &raise_pointer<T>) {
+                    return (T*)ptr;
+                }
+                try {
+                    raise(ptr);
+                } catch(T* cast) {
+                    return cast;
+                } catch(...) {
+                }
+                return nullptr;
+            }
+        }
+
         class Registrations {
 
-            typedef std::function<void*(void)> Make;
+            struct Class {
+                void* (*create)  (void);
+                void  (*destroy) (void*);
+                void  (*raise)   (void*);
+            };
 
         public:
             template<class T>
             void add(const String& id)
             {
-                bool exists = this->insert(id, [] { return Ctor<T>::Create_New().release(); });
-
+                bool exists = this->insert(id, Class {
+                    [] { return (void*)Ctor<T>::Create_New().release(); },
+                    [](void* ptr) { delete (T*)ptr; },
+                    &Aux::raise_pointer<T>
+                });
                 if(exists) {
                     throw Exception("Class id " + id.unwrap(false) + " duplicated.");
                 }
@@ -30,23 +59,29 @@ namespace Srl {
             template<class T>
             std::unique_ptr<T> create(const String& id)
             {
-                auto* make = this->find(id);
+                auto* cls = this->find(id);
 
-                if(!make) {
+                if(!cls) {
                     throw Exception("Class id " + id.unwrap(false) + " not registered.");
                 }
 
-                auto* ptr = (T*)((*make)());
+                std::unique_ptr<void, void(*)(void*)> object(cls->create(), cls->destroy);
+                auto* ptr = Aux::cast_pointer<T>(object.get(), cls->raise);
+
+                if(!ptr) {
+                    throw Exception("Class id " + id.unwrap(false) + " is not registered for a subtype of the requested type.");
+                }
+
+                object.release();
                 return std::unique_ptr<T>(ptr);
             }
 
         private:
-            HTable<String, Make> table { 16 };
+            HTable<String, Class> table { 16 };
 
-            bool  insert (const String& id, Make&& make);
-            Make* find   (const String& id);
+            bool   insert (const String& id, const Class& cls);
+            Class* find   (const String& id);
         };
-
         Registrations* registrations();
 
         template<class T>
diff --git a/src/lib/Registration.cpp b/src/lib/Registration.cpp
index d23a5f6..05c8343 100644
--- a/src/lib/Registration.cpp
+++ b/src/lib/Registration.cpp
@@ -12,15 +12,15 @@ Registrations* Lib::registrations()
     return &regs;
 }
 
-bool Registrations::insert(const String& id, Registrations::Make&& make)
+bool Registrations::insert(const String& id, const Registrations::Class& cls)
 {
     bool exists; void* v;
-    tie(exists, v) = this->table.insert(id, make);
+    tie(exists, v) = this->table.insert(id, cls);
 
     return exists;
 }
 
-Registrations::Make* Registrations::find (const String& id)
+Registrations::Class* Registrations::find (const String& id)
 {
     return this->table.get(id);
 }
-- 
2.43.0


From fd7d712dc5fc3b45301d9669f77ffade92f944a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 35/55] fix: check types of shared objects and find them by
 pointers to any base

---
 include/Srl/Environment.h  |  9 ++++++++-
 include/Srl/Node.h         |  2 +-
 include/Srl/Registration.h | 12 ++++++++++++
 include/Srl/Resolve.hpp    | 38 ++++++++++++++++++++++++++++++++------
 src/lib/Node.cpp           | 10 +++++-----
 5 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index b7e5f1a..54795ff 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -77,6 +77,13 @@ namespace Lib {
         uint64_t num_keys = 0;
     };
 
+    /* restored shared object, raise throws ptr as pointer to the type of the object */
+    struct SharedObject {
+        std::shared_ptr<void> owner;
+        void* ptr;
+        void (*raise)(void*);
+    };
+
     struct Environment {
         static const String EmptyString;
         static const Encoding Str_Encoding = Encoding::UTF8;
@@ -89,7 +96,7 @@ namespace Lib {
 
         SharedTable                           shared_table_store;
         SharedTable                           shared_table_direct;
-        HTable<size_t, std::shared_ptr<void>> shared_table_restore { 16 };
+        HTable<size_t, SharedObject>          shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
         std::vector<uint8_t>  type_buffer;
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 0a803c1..87123e2 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -127,7 +127,7 @@ namespace Srl {
                          Type node_type, const String& name, const Args&... args);
 
         std::pair<bool, uint64_t> insert_shared (const std::shared_ptr<const void>& obj);
-        std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::function<std::shared_ptr<void>(void)>& create);
+        std::pair<bool, Lib::SharedObject*> find_shared (uint64_t key, const std::function<Lib::SharedObject(void)>& create);
 
         Node& insert_node  (const Node& node, const String& name);
         Node& insert_node  (Type type, const String& name);
diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index a6c37c4..b9f3eeb 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -6,6 +6,9 @@
 #include "Exception.h"
 #include "Resolve.h"
 
+#include <map>
+#include <typeindex>
+
 namespace Srl {
 
     struct TypeID { virtual const char* name() const = 0; };
@@ -54,6 +57,7 @@ namespace Srl {
                 if(exists) {
                     throw Exception("Class id " + id.unwrap(false) + " duplicated.");
                 }
+                this->types.emplace(typeid(T), &Aux::raise_pointer<T>);
             }
 
             template<class T>
@@ -76,8 +80,16 @@ namespace Srl {
                 return std::unique_ptr<T>(ptr);
             }
 
+            /* function throwing pointers to a registered type, nullptr if it is not registered */
+            void (*find_raise(const std::type_info& type))(void*)
+            {
+                auto it = this->types.find(type);
+                return it != this->types.end() ? it->second : nullptr;
+            }
+
         private:
             HTable<String, Class> table { 16 };
+            std::map<std::type_index, void (*)(void*)> types;
 
             bool   insert (const String& id, const Class& cls);
             Class* find   (const String& id);
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 2d8b2ac..50da193 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -775,7 +775,7 @@ namespace Srl { namespace Lib {
                 node.open_scope(&Insert_Null, Type::Object, name, p);
                 return;
             }
-            auto key = node.insert_shared(p);
+            auto key = node.insert_shared(Object_Owner(p));
             node.open_scope(&Insert_Key, Type::Object, name, p, !key.first, key.second);
         }
 
@@ -792,8 +792,29 @@ namespace Srl { namespace Lib {
             }
         }
 
+        /* pointers to different bases are pointers to the same object */
+        static std::shared_ptr<const void> Object_Owner(const T& p)
+        {
+            if constexpr(is_polymorphic<E*>::value && std::is_polymorphic<E>::value) {
+                return std::shared_ptr<const void>(p, dynamic_cast<const void*>(p.get()));
+            } else {
+                return p;
+            }
+        }
+
+        static SharedObject Make_Object(const T& p)
+        {
+            if constexpr(is_polymorphic<E*>::value && std::is_polymorphic<E>::value) {
+                auto raise = p ? Lib::registrations()->find_raise(typeid(*p)) : nullptr;
+                if(raise) {
+                    return { p, dynamic_cast<void*>(p.get()), raise };
+                }
+            }
+            return { p, p.get(), &Aux::raise_pointer<E> };
+        }
+
         template<class ID = String>
-        static void Paste(T& p, Node& node, const ID& = Aux::str_empty)
+        static void Paste(T& p, Node& node, const ID& id = Aux::str_empty)
         {
             std::unique_ptr<uint64_t> key;
             node.paste_field(Aux::str_shared_key, key);
@@ -803,17 +824,22 @@ namespace Srl { namespace Lib {
                 return;
             }
 
-            bool inserted_new; std::shared_ptr<void>* sptr;
+            bool inserted_new; SharedObject* object;
 
-            std::tie(inserted_new, sptr) = node.find_shared(*key, [&p, &node] {
+            std::tie(inserted_new, object) = node.find_shared(*key, [&p, &node] {
                 E* e = nullptr;
                 Apply(e, node);
                 p = std::shared_ptr<E>(e);
-                return p;
+                return Make_Object(p);
             });
 
             if(!inserted_new) {
-                p = std::static_pointer_cast<E>(*sptr);
+                auto* ptr = Aux::cast_pointer<E>(object->ptr, object->raise);
+
+                if(!ptr && object->ptr) {
+                    Aux::throw_error("Shared object is of a different type.", id);
+                }
+                p = T(object->owner, ptr);
             }
         }
 
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index dae167d..dade87a 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -563,18 +563,18 @@ pair<bool, uint64_t> Node::insert_shared (const shared_ptr<const void>& obj)
     return table.insert(obj);
 }
 
-pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const function<shared_ptr<void>(void)>& create)
+pair<bool, SharedObject*> Node::find_shared (uint64_t key, const function<SharedObject(void)>& create)
 {
     auto& table = this->env->shared_table_restore;
-    auto* sptr = table.get(key);
+    auto* object = table.get(key);
     bool inserted_new = false;
 
-    if(!sptr) {
-        sptr = table.insert(key, create()).second;
+    if(!object) {
+        object = table.insert(key, create()).second;
         inserted_new = true;
     }
 
-    return { inserted_new, sptr };
+    return { inserted_new, object };
 }
 
 void Node::foreach_node(const function<void(Node&)>& fnc, bool recursive)
-- 
2.43.0


From 6e92cb55785132acc3fb900e192e82e60b645c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 36/55] fix: fill sizes not yet known with a value which makes
 unfinished MessagePack output invalid

---
 include/Srl/Out.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index 108eafd..6a5d7fe 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -63,7 +63,8 @@ namespace Srl { namespace Lib {
     {
         auto pos = this->state.sz_total;
         auto* reserved = this->alloc(nbytes);
-        memset(reserved, 0, nbytes);
+        /* make sure an incompletely written document won't be taken for a complete one */
+        memset(reserved, 0xFF, nbytes);
 
         return { reserved, nbytes, pos, this->state.segs_flushed };
     }
-- 
2.43.0


From 1fed9f54ab7400cb06c0ea6f1a64b28876a6a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 37/55] fix: look for an optional field of the requested kind
 when restoring from source

---
 include/Srl/Node.h |  2 +-
 src/lib/Node.cpp   | 76 +++++++++++++++++++++++++++-------------------
 2 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 87123e2..2aa5412 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -144,7 +144,7 @@ namespace Srl {
         Value consume_value (bool throw_ex, size_t idx);
 
         Union consume_item(const String& name, bool throw_err = true);
-
+        Union store_next_item();
         bool is_null_field (const String& name);
         bool is_null_field (size_t) { return false; }
         template<class T>
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index dade87a..869e702 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -289,32 +289,12 @@ Union Node::consume_item(const String& id, bool throw_err)
         return Union(storedvalue->field);
     }
 
-    auto hash = hash_string(id, *this->env);
-
     while(!this->parsed) {
 
-        MemBlock seg_name; Value val;
-        tie(seg_name, val) = this->env->parser->read(this->env->in);
-
-        auto tp = val.type();
-
-        if(tp == Type::Scope_End) {
-            this->parsed = true;
-            break;
-        }
-
-        if(TpTools::is_scope(tp)) {
-            auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
-            link->field.read_source();
-            if(link->hash == hash && link->field.name() == id) {
-                return Union(link->field);
-            }
+        auto item = this->store_next_item();
 
-        } else {
-            auto* link = this->env->store_value(*this, val, seg_name);
-            if(link->hash == hash && link->field.name() == id) {
-                return Union(link->field);
-            }
+        if((item.node() && item.node()->name() == id) || (item.value() && item.value()->name() == id)) {
+            return item;
         }
     }
 
@@ -325,6 +305,26 @@ Union Node::consume_item(const String& id, bool throw_err)
     return Union();
 }
 
+Union Node::store_next_item()
+{
+    MemBlock seg_name; Value val;
+    tie(seg_name, val) = this->env->parser->read(this->env->in);
+
+    auto tp = val.type();
+
+    if(tp == Type::Scope_End) {
+        this->parsed = true;
+        return Union();
+    }
+
+    if(TpTools::is_scope(tp)) {
+        auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
+        link->field.read_source();
+        return Union(link->field);
+    }
+
+    return Union(this->env->store_value(*this, val, seg_name)->field);
+}
 bool Node::is_null_field(const String& id)
 {
     if(find_link<Name>(id, this->nodes)) {
@@ -682,22 +682,36 @@ void Node::remove_value(Value* to_remove)
 
 bool Node::has_node(const String& field_name)
 {
-    if(this->parsed) {
-        return find_link<Name>(field_name, this->nodes, field_name) != nullptr;
+    if(find_link<Name>(field_name, this->nodes)) {
+        return true;
     }
 
-    auto unn = this->consume_item(field_name, false);
+    while(!this->parsed) {
+
+        auto item = this->store_next_item();
 
-    return unn.node() != nullptr;
+        if(item.node() && item.node()->name() == field_name) {
+            return true;
+        }
+    }
+
+    return false;
 }
 
 bool Node::has_value(const String& field_name)
 {
-    if(this->parsed) {
-        return find_link<Name>(field_name, this->values, field_name) != nullptr;
+    if(find_link<Name>(field_name, this->values)) {
+        return true;
     }
 
-    auto unn = this->consume_item(field_name, false);
+    while(!this->parsed) {
+
+        auto item = this->store_next_item();
+
+        if(item.value() && item.value()->name() == field_name) {
+            return true;
+        }
+    }
 
-    return unn.value() != nullptr;
+    return false;
 }
-- 
2.43.0


From a32b98fa276fe4fa34f0f6a065737fa03db34e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 38/55] fix: restore optional pointers to objects which are
 null

---
 include/Srl/Context.hpp | 5 +++--
 include/Srl/Node.h      | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Context.hpp b/include/Srl/Context.hpp
index 9fc4acf..e95b00f 100644
--- a/include/Srl/Context.hpp
+++ b/include/Srl/Context.hpp
@@ -66,10 +66,11 @@ namespace Srl {
 
         if((flags & CtxFlags::Optional)) {
 
+            /* null pointers to objects are stored as values */
             bool has = TpTools::is_scope(type)
-                ? context_node->has_node(name)
+                ? context_node->has_node(name) ||
+                    (Lib::is_nullable<T>::value && context_node->is_null_field(name))
                 : context_node->has_value(name);
-
             if(!has) {
                 return;
             }
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 2aa5412..9941c8b 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -19,6 +19,7 @@ namespace Srl {
         friend class Tree;
         template<class T, class U>
         friend struct Lib::Switch;
+        friend class Context;
         friend struct Lib::Environment;
 
     public :
-- 
2.43.0


From d49efe95bbe1d6e9b6f543b121c4f38399a9b8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 39/55] fix: delete objects of raw pointers in a container if
 restoring it fails

---
 include/Srl/Resolve.hpp | 42 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 50da193..a0a97ea 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -25,6 +25,28 @@ namespace Srl { namespace Lib {
 
         inline void throw_error(const std::string& msg, const String& field_id);
 
+        /* raw pointers in a container which is not restored completely have no owner */
+        template<class F, class S>
+        void delete_pointers(const std::pair<F, S>& o);
+
+        template<class T>
+        void delete_pointers(const T& o)
+        {
+            if constexpr(is_container<T>::value) {
+                for(auto& e : o) {
+                    delete_pointers(e);
+                }
+            } else if constexpr(std::is_pointer<T>::value && !is_cstr_pointer<T>::value) {
+                delete o;
+            }
+        }
+
+        template<class F, class S>
+        void delete_pointers(const std::pair<F, S>& o)
+        {
+            delete_pointers(o.second);
+        }
+
         template<class ID>
         void check_type(Type expected, Type got, const ID& field_id);
 
@@ -496,11 +518,25 @@ namespace Srl { namespace Lib {
             Aux::check_type_scope(node.type(), id);
 
             T new_cont;
+
+            try {
+                Paste_Elements(new_cont, node);
+
+            } catch(...) {
+                Aux::delete_pointers(new_cont);
+                throw;
+            }
+
+            c = std::move(new_cont);
+        }
+
+        static void Paste_Elements(T& c, Node& node)
+        {
             size_t count = 0;
 
             if(node.parsed) {
                 for(auto& itm : node.items<E>()) {
-                    ElemSwitch<T, E>::Insert(new_cont, itm.field, count++);
+                    ElemSwitch<T, E>::Insert(c, itm.field, count++);
                 }
 
             } else {
@@ -509,12 +545,10 @@ namespace Srl { namespace Lib {
                     if(node.parsed) {
                         break;
                     }
-                    ElemSwitch<T, E>::Insert(new_cont, itm, count++);
+                    ElemSwitch<T, E>::Insert(c, itm, count++);
                     Finish(itm);
                 }
             }
-
-            c = std::move(new_cont);
         }
 
         template<class Cont, class Elem, typename = void> struct ElemSwitch {
-- 
2.43.0


From 3324333e4e5fb46aaac3ff3504838a1772bd3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 40/55] fix: text of an ill-formed name is not equal to the
 empty name

---
 include/Srl/String.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Srl/String.hpp b/include/Srl/String.hpp
index 172dceb..419bb86 100644
--- a/include/Srl/String.hpp
+++ b/include/Srl/String.hpp
@@ -20,8 +20,8 @@ namespace Srl {
             return this->block.size == sz && memcmp(this->block.data(), mem, sz) == 0;
         };
 
-        if(this->block.size == 0 && a.block.size == 0) {
-            return true;
+        if(this->block.size == 0 || a.block.size == 0) {
+            return this->block.size == a.block.size;
         }
 
         if(a.block.encoding == this->block.encoding) {
-- 
2.43.0


From b04dd0ef5a53cdebf3a0aef0704ca4beb846b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:15 +0000
Subject: [PATCH 41/55] fix: reserve space to align a block in a segment of
 exactly its size

---
 src/lib/Heap.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index a069ace..642dc82 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -203,7 +203,9 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
         }
     }
 
-    auto alloc_sz = this->cap > n ? this->cap : n;
+    /* the segment may have to be padded to the alignment */
+    auto padded   = n + align - 1;
+    auto alloc_sz = this->cap > padded ? this->cap : padded;
 
     auto* link = this->chain.get_link();
     seg = &link->val;
-- 
2.43.0


From d9fb2ecbc762855e313f4de7b25e725b98c5b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 42/55] fix: copy field names into the name table of the Srl
 format when writing

---
 src/lib/PSrl.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 1c17098..305d5f9 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -122,16 +122,17 @@ void PSrl::write_head(Flag flag, const MemBlock& str, Out& out)
 
     flag |= FNamed;
 
-    auto nstrings = this->hashed_strings.num_entries();
+    auto* index = this->hashed_strings.get(str);
 
-    bool exists; size_t* index;
-    tie(exists, index) = this->hashed_strings.insert(str, nstrings);
-
-    if(exists) {
+    if(index) {
         out.write_byte(flag | FIndexed);
         encode_integer(*index, out);
 
     } else {
+        /* the name might not outlive this call */
+        auto nstrings = this->hashed_strings.num_entries();
+        this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);
+
         out.write_byte(flag);
         encode_integer(str.size, out);
         out.write(str);
-- 
2.43.0


From c7e4409e2e8be1c781469cc5f8d22bcd70d23a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 43/55] fix: restore a value by value into an initialised
 variable

---
 include/Srl/Value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/Value.hpp b/include/Srl/Value.hpp
index 4e52d61..555f244 100644
--- a/include/Srl/Value.hpp
+++ b/include/Srl/Value.hpp
@@ -41,7 +41,7 @@ namespace Srl {
 
     template<class T> T Value::unwrap() const
     {
-        T r;
+        T r { };
         this->paste(r);
         return r;
     }
-- 
2.43.0


From cc04306cb303355305aed37f976de8f6423844d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 44/55] fix: keep the hash table intact if memory for a larger
 one cannot be allocated

---
 include/Srl/Hash.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index f6310f2..9c2e646 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -55,16 +55,16 @@ namespace Srl { namespace Lib {
     {
         if(this->limit == 0) {
             /* initial allocation */
+            this->table = this->alloc_table(std::max((size_t)1, this->cap));
             this->set_capacity(this->cap);
-            this->table = this->alloc_table(this->cap);
 
             return;
         }
 
         auto old_dim = this->cap;
-        this->set_capacity(this->cap * 2);
+        auto* ntable = alloc_table(old_dim * 2);
 
-        auto* ntable = alloc_table(this->cap);
+        this->set_capacity(old_dim * 2);
 
         for(auto i = 0U; i < old_dim; i++) {
             auto* entry = table[i];
@@ -235,7 +235,7 @@ namespace Srl { namespace Lib {
     typename HTable<K, V, H>::Entry** HTable<K, V, H>::alloc_table(size_t sz)
     {
         Entry** tbl = this->heap.template get_mem<Entry*>(sz);
-        memset(tbl, 0, this->cap * sizeof(nullptr));
+        memset(tbl, 0, sz * sizeof(nullptr));
         return tbl;
     }
 
-- 
2.43.0


From 10e6cd70d03b362e311b4d716e601e84a9f19a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 45/55] fix: do not hand out memory twice if allocating a
 segment fails

---
 src/lib/Heap.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index 642dc82..17adf09 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -153,8 +153,15 @@ Aux::SList<T>::find_rm(const Predicate& pred)
 
 void Heap::put_mem(uint8_t* mem, size_t sz)
 {
+    SegLink* link;
+
+    try {
+        link = this->chain.get_link();
+
+    } catch(const bad_alloc&) {
+        return; /* the memory is not used again */
+    }
 
-    auto* link = this->chain.get_link();
     set_subsegment(link->val, mem, sz);
 
     this->chain.free_segs.append(link);
@@ -189,6 +196,7 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
 
     if(this->crr_seg && crr_seg->left > 0) {
         this->put_mem(crr_seg->pointer(), this->crr_seg->left);
+        this->crr_seg = nullptr;
     }
 
     if(chain.free_segs.front && (seg = find_free_seg(n, align))) {
-- 
2.43.0


From cd89088569fa6d0a180c04d3c66f30a19ffbbb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 46/55] fix: leave no environment without root node if memory
 runs out

---
 src/lib/Tree.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 9fbc06a..4fb1a9a 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -132,7 +132,14 @@ void Tree::create_env(Type tp)
     }
 
     this->env = unique_ptr<Environment>(new Environment(*this));
-    this->root_node = &env->create_node(tp, "")->field;
+
+    try {
+        this->root_node = &env->create_node(tp, "")->field;
+
+    } catch(...) {
+        this->env.reset();
+        throw;
+    }
 }
 
 Environment& Tree::get_env()
-- 
2.43.0


From 312827e67c0da0271d6ebc5ba252542eaf9721a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 47/55] fix: delete objects of raw pointers in what is restored
 by value, in tables, tuples and repeated keys

---
 include/Srl/Node.hpp    |  4 +-
 include/Srl/Resolve.h   |  4 ++
 include/Srl/Resolve.hpp | 93 ++++++++++++++++++++++++++++++++++-------
 include/Srl/Tree.hpp    |  2 +-
 4 files changed, 85 insertions(+), 18 deletions(-)

diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index 8920619..d7dee9f 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -86,7 +86,7 @@ namespace Srl {
     T Node::unwrap()
     {
         auto r = Ctor<T>::Create();
-        this->paste(r);
+        Lib::Aux::paste_or_delete(r, [this](T& o) { this->paste(o); });
 
         return r;
     }
@@ -101,7 +101,7 @@ namespace Srl {
     T Node::unwrap_field(const ID& fieldID)
     {
         auto r = Ctor<T>::Create();
-        this->paste_field(fieldID, r);
+        Lib::Aux::paste_or_delete(r, [this, &fieldID](T& o) { this->paste_field(fieldID, o); });
 
         return r;
     }
diff --git a/include/Srl/Resolve.h b/include/Srl/Resolve.h
index 2107960..c32aef5 100644
--- a/include/Srl/Resolve.h
+++ b/include/Srl/Resolve.h
@@ -36,6 +36,10 @@ namespace Lib {
 
     template<class TChar> Encoding get_encoding();
 
+    namespace Aux {
+        template<class T, class Paste> void paste_or_delete(T& o, Paste paste);
+    }
+
     template<class T> struct has_store_method {
 
         template<class U, U> struct test_sig { };
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index a0a97ea..feab5d8 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -29,6 +29,12 @@ namespace Srl { namespace Lib {
         template<class F, class S>
         void delete_pointers(const std::pair<F, S>& o);
 
+        template<class... T>
+        void delete_pointers(const std::tuple<T...>& o);
+
+        template<class V>
+        void delete_pointers(const HTable<std::string, V>& o);
+
         template<class T>
         void delete_pointers(const T& o)
         {
@@ -44,9 +50,34 @@ namespace Srl { namespace Lib {
         template<class F, class S>
         void delete_pointers(const std::pair<F, S>& o)
         {
+            delete_pointers(o.first);
             delete_pointers(o.second);
         }
 
+        template<class... T>
+        void delete_pointers(const std::tuple<T...>& o)
+        {
+            std::apply([](auto&... e) { (delete_pointers(e), ...); }, o);
+        }
+
+        template<class V>
+        void delete_pointers(const HTable<std::string, V>& o)
+        {
+            o.foreach([](const std::string&, V& e) { delete_pointers(e); });
+        }
+
+        template<class T, class Paste>
+        void paste_or_delete(T& o, Paste paste)
+        {
+            try {
+                paste(o);
+
+            } catch(...) {
+                delete_pointers(o);
+                throw;
+            }
+        }
+
         template<class ID>
         void check_type(Type expected, Type got, const ID& field_id);
 
@@ -519,13 +550,7 @@ namespace Srl { namespace Lib {
 
             T new_cont;
 
-            try {
-                Paste_Elements(new_cont, node);
-
-            } catch(...) {
-                Aux::delete_pointers(new_cont);
-                throw;
-            }
+            Aux::paste_or_delete(new_cont, [&node](T& cont) { Paste_Elements(cont, node); });
 
             c = std::move(new_cont);
         }
@@ -589,13 +614,31 @@ namespace Srl { namespace Lib {
 
             template<class Item>
             static void Insert(Cont& c, Item& itm, size_t) {
-                auto key = Ctor<KeyNC>::Create();
-                itm.paste_field(Aux::str_key, key);
+                auto elem = std::make_pair(Ctor<KeyNC>::Create(), Ctor<Value>::Create());
 
-                auto val = Ctor<Value>::Create();
-                itm.paste_field(Aux::str_value, val);
+                Aux::paste_or_delete(elem, [&c, &itm](std::pair<KeyNC, Value>& e) {
+                    itm.paste_field(Aux::str_key, e.first);
+                    itm.paste_field(Aux::str_value, e.second);
+                    Emplace(c, e, 0);
+                });
+            }
+
+            /* containers with unique keys */
+            template<class C>
+            static auto Emplace(C& c, std::pair<KeyNC, Value>& elem, int)
+                -> decltype(c.try_emplace(std::move(elem.first), std::move(elem.second)), void())
+            {
+                auto inserted = c.try_emplace(std::move(elem.first), std::move(elem.second)).second;
+
+                if(!inserted) {
+                    Aux::delete_pointers(elem.second);
+                }
+            }
 
-                c.emplace(std::move(key), std::move(val));
+            template<class C>
+            static void Emplace(C& c, std::pair<KeyNC, Value>& elem, long)
+            {
+                c.emplace(std::move(elem.first), std::move(elem.second));
             }
         };
     };
@@ -1014,12 +1057,32 @@ namespace Srl { namespace Lib {
 
             ht.clear();
 
+            HTable<std::string, V> new_ht;
+
+            Aux::paste_or_delete(new_ht, [&node](HTable<std::string, V>& h) { Paste_Elements(h, node); });
+
+            ht = std::move(new_ht);
+        }
+
+        static void Insert_Entry(HTable<std::string, V>& ht, std::string&& key, V&& value)
+        {
+            Aux::paste_or_delete(value, [&ht, &key](V& v) {
+
+                auto exists = ht.insert(std::move(key), std::move(v)).first;
+
+                if(exists) {
+                    Aux::delete_pointers(v);
+                }
+            });
+        }
+
+        static void Paste_Elements(HTable<std::string, V>& ht, Node& node)
+        {
             if(node.parsed) {
 
                 for(auto& itm : node.items<V>()) {
                     auto key = itm.field.name().unwrap();
-                    ht.insert(std::move(key), itm.field.template unwrap<V>());
-
+                    Insert_Entry(ht, std::move(key), itm.field.template unwrap<V>());
                 }
                 return;
             }
@@ -1032,7 +1095,7 @@ namespace Srl { namespace Lib {
                 }
 
                 auto key = itm.name().unwrap();
-                ht.insert(std::move(key), itm.template unwrap<V>());
+                Insert_Entry(ht, std::move(key), itm.template unwrap<V>());
                 FinishScope(itm);
             }
         }
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index e2014b9..2e9e68d 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -138,7 +138,7 @@ namespace Srl {
     Object Tree::restore(Lib::In::Source source, TParser&& parser)
     {
         auto object = Ctor<Object>::Create();
-        this->restore(object, source, parser);
+        Lib::Aux::paste_or_delete(object, [&](Object& o) { this->restore(o, source, parser); });
 
         return object;
     }
-- 
2.43.0


From 9005f1e3c78aa041a1d69f374ff51b5fb5b73adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 48/55] fix: delete a shared object if what follows it cannot
 be restored

---
 include/Srl/Resolve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index feab5d8..e7633d6 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -905,7 +905,7 @@ namespace Srl { namespace Lib {
 
             std::tie(inserted_new, object) = node.find_shared(*key, [&p, &node] {
                 E* e = nullptr;
-                Apply(e, node);
+                Aux::paste_or_delete(e, [&node](E*& ptr) { Apply(ptr, node); });
                 p = std::shared_ptr<E>(e);
                 return Make_Object(p);
             });
-- 
2.43.0


From 2c6331666b5ae2e1901e85e7445e95fa197e0114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 49/55] fix: items and documents of more than 4 GiB

Sizes were kept in 32 bits at several places, bigger texts came back cut off
and bigger documents damaged. MessagePack cannot hold such items, writing
them is refused now.
---
 include/Srl/Blocks.h |  4 ++--
 include/Srl/Heap.h   |  4 ++--
 include/Srl/In.hpp   |  4 ++--
 src/lib/Out.cpp      |  2 +-
 src/lib/PMsgPack.cpp | 16 +++++++++++++++-
 5 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/Srl/Blocks.h b/include/Srl/Blocks.h
index 436c60d..105081f 100644
--- a/include/Srl/Blocks.h
+++ b/include/Srl/Blocks.h
@@ -24,7 +24,7 @@ namespace Srl { namespace Lib {
 
         struct PackedBlock {
 
-            PackedBlock(uint32_t sz, Type type_, Encoding encoding_)
+            PackedBlock(size_t sz, Type type_, Encoding encoding_)
                 : ui64(0), size(sz), type(type_), encoding(encoding_) { }
 
             PackedBlock(const Lib::MemBlock& block, Type type_, Encoding encoding_)
@@ -39,7 +39,7 @@ namespace Srl { namespace Lib {
                 uint64_t       ui64;
             };
 
-            uint32_t size;
+            size_t   size;
             Type     type;
             Encoding encoding;
             bool     stored_local = false;
diff --git a/include/Srl/Heap.h b/include/Srl/Heap.h
index ab1f663..46c7b96 100644
--- a/include/Srl/Heap.h
+++ b/include/Srl/Heap.h
@@ -61,8 +61,8 @@ namespace Srl { namespace Lib {
             ~Segment();
 
             uint8_t* data    = nullptr;
-            uint32_t left    = 0;
-            uint32_t size    = 0;
+            size_t   left    = 0;
+            size_t   size    = 0;
             bool     sub_seg = false;
 
             void     dec (size_t n) { assert(this->left >= n); this->left -= n; }
diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index e41df65..ce75b64 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -46,7 +46,7 @@ namespace Srl { namespace Lib {
         if(!this->pos) {
             error();
         }
-        auto steps = 0U;
+        size_t steps = 0;
 
         while(this->peek(1, error) && Not == this->is_at_token(tokens...)) {
             this->move(1, error);
@@ -113,7 +113,7 @@ namespace Srl { namespace Lib {
     {
         const size_t max = Aux::max_len<Tokens...>();
 
-        auto steps = 0U;
+        size_t steps = 0;
         auto bufsz = buf.size();
 
         while(*this->peek(1, error) != delimiter) {
diff --git a/src/lib/Out.cpp b/src/lib/Out.cpp
index 3819a53..a07c98d 100644
--- a/src/lib/Out.cpp
+++ b/src/lib/Out.cpp
@@ -54,7 +54,7 @@ void Out::write_to_buffer()
 
     this->buffer->resize(this->state.sz_total);
 
-    auto pos = 0U;
+    size_t pos = 0;
     auto* seg = this->heap.chain.used_segs.front;
 
     while(seg) {
diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index f8d8653..dd53a55 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -125,11 +125,20 @@ namespace {
         out.write_byte(0xC0);
     }
 
+    void check_size(const MemBlock& block)
+    {
+        if(block.size > 0xFFFFFFFF) {
+            throw Exception("Unable to write MessagePack data. Block exceeds the maximum size.");
+        }
+    }
+
     /* bin  8 11000100 0xc4
        bin 16 11000101 0xc5
        bin 32 11000110 0xc6 */
     void write_bin(const MemBlock& block, Out& out)
     {
+        check_size(block);
+
         if(block.size <= 255) {
             out.write_byte(0xC4);
             out.write_byte(block.size);
@@ -154,6 +163,8 @@ namespace {
        str 32 11011011 0xdb */
     void write_str(const MemBlock& block, Out& out)
     {
+        check_size(block);
+
         if(block.size <= 0x1F) {
             out.write_byte(0xA0 | block.size);
 
@@ -389,7 +400,10 @@ void PMsgPack::write(const Value& value, const MemBlock& name, Out& out)
         if(this->scope->type == Type::Object) {
             write_str(name, out);
         }
-        this->scope_stack.top().elements++;
+        if(this->scope->elements == 0xFFFFFFFF) {
+            throw Exception("Unable to write MessagePack data. Too many elements in scope.");
+        }
+        this->scope->elements++;
     }
 
 
-- 
2.43.0


From d62d284083a3131abfd87c73c9fe266087cbd58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 50/55] fix: read numbers the same way in every locale

---
 src/lib/ToolsStrConv.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 233bc30..e545187 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -6,6 +6,8 @@ extern "C" {
 
 #include <limits>
 #include <cmath>
+#include <stdlib.h>
+#include <locale.h>
 
 using namespace std;
 using namespace Srl;
@@ -23,13 +25,16 @@ namespace {
         const size_t buffer_size = 64;
         char buffer[buffer_size];
 
+        /* the decimal separator must not depend on the locale the program runs in */
+        static const auto c_locale = newlocale(LC_ALL_MASK, "C", (locale_t)0);
+
         double val;
 
         const auto apply = [&val, str, str_len](char* ptr_mem) -> bool {
             char* end = nullptr;
             memcpy(ptr_mem, str, str_len);
             ptr_mem[str_len] = '\0';
-            val = strtod(ptr_mem, &end);
+            val = strtod_l(ptr_mem, &end, c_locale);
 
             return end == ptr_mem + str_len;
         };
-- 
2.43.0


From e3e986234813494c7e9b7eb76aa121a17096cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:21 +0000
Subject: [PATCH 51/55] fix: reading ahead to the end of a stream is no failure

---
 src/lib/In.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index 2974fde..702375e 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -5,6 +5,35 @@ using namespace std;
 using namespace Srl;
 using namespace Lib;
 
+namespace {
+
+    /* Reading ahead often reaches the end of the stream, which is no failure: don't raise an exception
+     * on streams which have them enabled for failures */
+    size_t read_ahead(istream& stream, char* dest, size_t nbytes)
+    {
+        const auto mask = stream.exceptions();
+        stream.exceptions(mask & ios_base::badbit);
+
+        try {
+            stream.read(dest, nbytes);
+
+        } catch(...) {
+            /* thrown by the stream buffer */
+            try { stream.exceptions(mask); } catch(const ios_base::failure&) { }
+            throw;
+        }
+
+        const auto count = (size_t)stream.gcount();
+
+        if(stream.eof()) {
+            stream.clear(stream.rdstate() & ~ios_base::failbit);
+        }
+        stream.exceptions(mask);
+
+        return count;
+    }
+}
+
 void In::set(Source source)
 {
     this->streaming = source.is_stream;
@@ -78,8 +107,7 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
             this->buffer.resize(preserve_sz + bytes_read + chunk);
         }
 
-        this->stream->read((char*)&this->buffer[preserve_sz + bytes_read], chunk);
-        auto count = (size_t)this->stream->gcount();
+        auto count = read_ahead(*this->stream, (char*)&this->buffer[preserve_sz + bytes_read], chunk);
         bytes_read += count;
 
         if(count < chunk) {
-- 
2.43.0


From 9922cda6d7ef991a9c84acc0873198704236dcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:39 +0000
Subject: [PATCH 52/55] fix: refuse to write MessagePack sizes to a stream
 which only appends

---
 include/Srl/Out.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index 6a5d7fe..a1d8cbe 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -52,8 +52,16 @@ namespace Srl { namespace Lib {
             if(this->stream_pos < 0 || crr == std::ostream::pos_type(-1)) {
                 throw Exception("Unable to write to stream. Stream is not seekable.");
             }
-            this->stream->seekp(this->stream_pos + (std::streamoff)(ticket.pos + offset));
+            auto dest = this->stream_pos + (std::streamoff)(ticket.pos + offset);
+
+            this->stream->seekp(dest);
             this->stream->write((const char*)bytes, nbytes);
+            this->stream->flush();
+
+            /* files opened for appending accept seeking, but write at their end nevertheless */
+            if(this->stream->good() && this->stream->tellp() != std::ostream::pos_type(dest + (std::streamoff)nbytes)) {
+                throw Exception("Unable to write to stream. Stream is not seekable.");
+            }
 
             this->stream->seekp(crr);
         }
-- 
2.43.0


From 8b8d137b25c734717e144df20097837351bed2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 53/55] fix: no signed overflow when negating the smallest
 integer

---
 src/lib/PSrl.cpp         | 4 ++--
 src/lib/ToolsStrConv.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 305d5f9..e09f6e1 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -205,7 +205,7 @@ void PSrl::write(const Value& value, const MemBlock& name, Out& out)
     } else if(TpTools::is_integral(type)) {
 
         uint64_t integer = TpTools::is_signed(type) && value.pblock().i64 < 0
-            ? -value.pblock().i64
+            ? 0 - (uint64_t)value.pblock().i64
             : value.pblock().ui64;
 
         encode_integer(integer, out);
@@ -282,7 +282,7 @@ pair<Lib::MemBlock, Value> PSrl::read_num(Flag flag, const MemBlock& name, In& s
     uint64_t integer = decode_integer(source);
 
     return flag & FSigned
-        ? make_pair(name, Value(-(int64_t)integer))
+        ? make_pair(name, Value((int64_t)(0 - integer)))
         : make_pair(name, Value(integer));
 }
 
diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index e545187..cc2876f 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -104,7 +104,7 @@ namespace {
 
         bool negative = TpTools::is_signed(TP) && value.pblock().i64 < 0;
 
-        uint64_t val = negative ? -value.pblock().i64 : value.pblock().ui64;
+        uint64_t val = negative ? 0 - (uint64_t)value.pblock().i64 : value.pblock().ui64;
 
         if(val == 0) {
             if(out.size() < 1) out.resize(1);
-- 
2.43.0


From 2a8d2b202cbf1d4db5749da33d78c45278cd3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 54/55] fix: read long literals from streams with effort in
 proportion to their size

---
 src/lib/In.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index 702375e..5d56515 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -98,10 +98,12 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     /* the requested size might exceed what the stream is able to deliver, so don't
      * allocate memory for more than a limited chunk at once */
     const size_t max_chunk = 1 << 16;
+    /* read as much as is moved at least, so the effort to read a long literal stays proportional to its size */
+    const size_t min_chunk = preserve_sz > read_len ? preserve_sz : read_len;
 
     do {
         auto chunk = required - bytes_read;
-        chunk = chunk < read_len ? read_len : chunk > max_chunk ? max_chunk : chunk;
+        chunk = chunk < min_chunk ? min_chunk : chunk > max_chunk ? max_chunk : chunk;
 
         if(this->buffer.size() < preserve_sz + bytes_read + chunk) {
             this->buffer.resize(preserve_sz + bytes_read + chunk);
-- 
2.43.0


From e28bc5da17156df17dbfb94f4b51b8c353207c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:39 +0000
Subject: [PATCH 55/55] fix: edits of a tree don't get slower with the number
 of edits before

---
 include/Srl/Heap.h |  8 ++++++--
 src/lib/Heap.cpp   | 20 +++++++++++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/Srl/Heap.h b/include/Srl/Heap.h
index 46c7b96..28d8ceb 100644
--- a/include/Srl/Heap.h
+++ b/include/Srl/Heap.h
@@ -25,7 +25,7 @@ namespace Srl { namespace Lib {
             void  remove  (Link* prev, Link* link);
 
             template<class Predicate>
-            Link* find_rm (const Predicate& predicate);
+            Link* find_rm (const Predicate& predicate, size_t max_steps = ~(size_t)0);
 
             template<class Predicate>
             void  prepend (const Predicate& predicate, Link* link);
@@ -70,7 +70,10 @@ namespace Srl { namespace Lib {
         };
 
     private:
-        static const size_t Max_Cap = 65536 << 2;
+        static const size_t Max_Cap    = 65536 << 2;
+        /* small pieces of memory can be many, few of them are looked at when memory is needed */
+        static const size_t Small_Size = 1024;
+        static const size_t Max_Search = 16;
 
         size_t   cap     = 256;
         Segment* crr_seg = nullptr;
@@ -79,6 +82,7 @@ namespace Srl { namespace Lib {
 
             Aux::SList<Segment> used_segs;
             Aux::SList<Segment> free_segs;
+            Aux::SList<Segment> free_small;
 
             Aux::SList<Aux::SList<Segment>::Link> used_links;
             Aux::SList<Aux::SList<Segment>::Link> free_links;
diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index 17adf09..91703ce 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -133,12 +133,12 @@ void Aux::SList<T>::prepend(SList<T>::Link* link)
 }
 
 template<class T> template<class Predicate> typename Aux::SList<T>::Link*
-Aux::SList<T>::find_rm(const Predicate& pred)
+Aux::SList<T>::find_rm(const Predicate& pred, size_t max_steps)
 {
     Link* link = this->front;
     Link* prev = nullptr;
 
-    while(link) {
+    while(link && max_steps-- > 0) {
         if(pred(link->val)) {
             remove(prev, link);
             return link;
@@ -164,12 +164,21 @@ void Heap::put_mem(uint8_t* mem, size_t sz)
 
     set_subsegment(link->val, mem, sz);
 
-    this->chain.free_segs.append(link);
+    if(sz < Small_Size) {
+        this->chain.free_small.prepend(link);
+
+    } else {
+        this->chain.free_segs.append(link);
+    }
 }
 
 Heap::Segment* Heap::find_free_seg(size_t sz, size_t align)
 {
-    auto* link = this->chain.free_segs.find_rm(Size(sz, align));
+    auto* link = this->chain.free_small.find_rm(Size(sz, align), Max_Search);
+
+    if(!link) {
+        link = this->chain.free_segs.find_rm(Size(sz, align));
+    }
 
     if(link) {
         this->chain.used_segs.append(link);
@@ -199,7 +208,7 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
         this->crr_seg = nullptr;
     }
 
-    if(chain.free_segs.front && (seg = find_free_seg(n, align))) {
+    if((seg = find_free_seg(n, align))) {
         return seg;
     }
 
@@ -228,6 +237,7 @@ void Heap::clear()
 {
     this->chain.used_segs.clear();
     this->chain.free_segs.clear();
+    this->chain.free_small.clear();
 
     ChainLink* link = this->chain.used_links.front;
     ChainLink* prev = nullptr;
-- 
2.43.0

