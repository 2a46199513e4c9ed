From d5e5396964af81e444a24b3afa58be7746d02727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 01/58] fix: never read a byte beyond the end of the input

In counted one byte after the end of a memory block as readable, dereferenced
positions nobody had checked, and overflowed on huge lengths.
---
 include/Srl/In.hpp | 14 +++++++-------
 src/lib/In.cpp     |  2 +-
 src/lib/PJson.cpp  |  2 +-
 src/lib/PSrl.cpp   |  7 ++-----
 4 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index 00ae2a7..664293d 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -46,9 +46,9 @@ namespace Srl { namespace Lib {
         if(!this->pos) {
             error();
         }
-        auto steps = 0U;
+        size_t steps = 0;
 
-        while(Not == this->is_at_token(tokens...)) {
+        while(this->peek(1, error), Not == this->is_at_token(tokens...)) {
             this->move(1, error);
             steps++;
         }
@@ -82,7 +82,7 @@ namespace Srl { namespace Lib {
 
     inline const uint8_t* In::peek(size_t steps, const Error& error)
     {
-        if(this->pos + steps >= this->end) {
+        if(steps > (size_t)(this->end - this->pos)) {
             this->fetch_data(steps, error);
         }
         return this->pos;
@@ -90,7 +90,7 @@ namespace Srl { namespace Lib {
 
     inline bool In::try_peek(size_t steps)
     {
-        return this->pos + steps < this->end || this->try_fetch_data(steps);
+        return steps <= (size_t)(this->end - this->pos) || this->try_fetch_data(steps);
     }
 
     inline MemBlock In::read_block(size_t steps, const Error& error)
@@ -113,17 +113,17 @@ namespace Srl { namespace Lib {
     {
         const size_t max = Aux::max_len<Tokens...>();
 
-        auto steps = 0U;
+        size_t steps = 0;
         auto bufsz = buf.size();
 
-        while(*this->peek(0, error) != delimiter) {
+        while(*this->peek(1, error) != delimiter) {
 
             if(steps + 1 > bufsz) {
                 bufsz += steps + 10;
                 buf.resize(bufsz);
             }
 
-            auto left = this->try_peek(max) ? max : this->end - this->pos - 1;
+            auto left = this->try_peek(max) ? max : (size_t)(this->end - this->pos);
             steps += this->substitute_token(buf, steps, left, tokens...);
         }
 
diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index ea31829..570aea1 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -18,7 +18,7 @@ void In::set(Source source)
 
     } else {
         this->start = this->pos = source.block.ptr;
-        this->end   = this->start + source.block.size + 1;
+        this->end   = this->start + source.block.size;
     }
 }
 
diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 1824c2c..9e76f13 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -78,7 +78,7 @@ namespace {
     {
         assert(*source.pointer() == '/');
 
-        if(!source.try_peek(1)) {
+        if(!source.try_peek(2)) {
             return;
         }
 
diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 565efa0..94d4cab 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -88,14 +88,13 @@ namespace {
 
     uint64_t decode_integer(In& source)
     {
-        uint8_t  block       = *source.pointer();
+        uint8_t  block       = source.read_move<uint8_t>(error);
         uint64_t out_integer = mask_reset_msb & block;
 
         auto shift = 7U;
         /* first block w/o msb set is the last 8-bit block of the integer to decode */
         while(mask_msb & block) {
-            source.move(1, error);
-            block = *source.pointer();
+            block = source.read_move<uint8_t>(error);
             out_integer |= (mask_reset_msb & block) << shift;
             shift += 7;
         }
@@ -105,8 +104,6 @@ namespace {
             error();
         }
 
-        source.move(1, error);
-
         return out_integer;
     }
 }
-- 
2.43.0


From 3a689c94ff3b735e82793ca7fac0cc824640ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 02/58] fix: keep the anchored block of a stream across every
 refill

The anchor was dropped by the first refill and set by refills without one, so
that a block spanning two refills lost its beginning.
---
 src/lib/In.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index 570aea1..77a5609 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -77,7 +77,7 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     auto bytes_read = (size_t)this->stream->gcount();
 
     this->pos  = &this->buffer[preserve_sz - left];
-    anchor = anchor ? nullptr : &this->buffer[margin];
+    this->anchor = this->anchor ? &this->buffer[margin] : nullptr;
 
     this->start = this->buffer.data();
     this->end   = this->buffer.data() + bytes_read + preserve_sz;
-- 
2.43.0


From c372d4b24fd7cee871d80ae174cb764c78949e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 03/58] fix: do not allocate a length claimed by a stream
 before its bytes arrived

---
 src/lib/In.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index 77a5609..a535a79 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -50,13 +50,17 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
         return false;
     }
 
-    auto left = this->end - this->pos;
+    size_t left = this->end - this->pos;
 
-    read_len = (nbytes < read_len ? read_len : nbytes) - left;
+    /* a length found in the data is not trusted: the buffer grows with what was actually read */
+    const size_t max_len = left < (1 << 16) ? (1 << 16) : left;
+    const bool partial = nbytes > left && nbytes - left > max_len;
+
+    read_len = partial ? max_len : (nbytes < read_len ? read_len : nbytes) - left;
 
     auto preserve_pos = this->anchor != nullptr
         ? this->anchor - start
-        : (this->end - start) - left;
+        : this->pos - start;
 
     /* small extra margin to make sure memory around the current position will be preserved in any case */
     const auto margin_sz = 32;
@@ -82,11 +86,11 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     this->start = this->buffer.data();
     this->end   = this->buffer.data() + bytes_read + preserve_sz;
 
-    if(bytes_read + left < nbytes) {
+    if(bytes_read < read_len && bytes_read + left < nbytes) {
         this->eof_reached = true;
 
         return false;
     }
 
-    return true;
+    return partial ? this->try_fetch_data(nbytes) : true;
 }
-- 
2.43.0


From 08544e95a8e0bdd447ba0979bce4372977f9f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 04/58] fix: patch element counts relative to the start of the
 document

Positions were absolute, so a document that did not start at position 0 of its
stream overwrote what was there before it and kept counts of zero. A stream
that cannot tell its position is now reported through its state.
---
 include/Srl/Out.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index f653d2c..097645f 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -48,8 +48,14 @@ namespace Srl { namespace Lib {
 
         } else {
             auto crr = this->stream->tellp();
-
-            this->stream->seekp(ticket.pos + offset);
+            if(crr == std::ostream::pos_type(-1)) {
+                this->stream->setstate(std::ios_base::failbit);
+                return;
+            }
+            /* positions are relative to where the document starts in the stream */
+            size_t nflushed = this->state.sz_total - (this->state.cap - this->state.left);
+
+            this->stream->seekp(crr - (std::streamoff)(nflushed - ticket.pos - offset));
             this->stream->write((const char*)bytes, nbytes);
 
             this->stream->seekp(crr);
-- 
2.43.0


From c800cf7a0f3a6fc086aee5982832cd9dee94ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 05/58] fix: PSrl keeps copies of the field names it has
 written

The table of known names pointed into the caller's strings. Temporary or
converted names were gone when later names were compared with them.
---
 src/lib/PSrl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 94d4cab..69c4f9f 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -124,14 +124,16 @@ void PSrl::write_head(Flag flag, const MemBlock& str, Out& out)
 
     auto nstrings = this->hashed_strings.num_entries();
 
-    bool exists; size_t* index;
-    tie(exists, index) = this->hashed_strings.insert(str, nstrings);
+    auto* index = this->hashed_strings.get(str);
 
-    if(exists) {
+    if(index) {
         out.write_byte(flag | FIndexed);
         encode_integer(*index, out);
 
     } else {
+        /* the name may be gone before the document is complete */
+        this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);
+
         out.write_byte(flag);
         encode_integer(str.size, out);
         out.write(str);
-- 
2.43.0


From 6c6dd7333828ac8e574be887f862fac466a529db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 06/58] fix: refuse integers of more than ten blocks before
 shifting by 64 bits or more

---
 src/lib/PSrl.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 69c4f9f..ab9eb93 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -94,16 +94,15 @@ namespace {
         auto shift = 7U;
         /* first block w/o msb set is the last 8-bit block of the integer to decode */
         while(mask_msb & block) {
+            /* no support for integers > 64 bit */
+            if(shift > 9 * 7) {
+                error();
+            }
             block = source.read_move<uint8_t>(error);
             out_integer |= (mask_reset_msb & block) << shift;
             shift += 7;
         }
 
-        /* no support for integers > 64 bit */
-        if(shift > 10 * 7) {
-            error();
-        }
-
         return out_integer;
     }
 }
-- 
2.43.0


From 7b5928858c2efe26966f286f8ba618cdc40dc8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 07/58] fix: MessagePack lengths of strings and binaries are
 big-endian

Lengths of more than one byte were written and read in the machine's order,
so that no other implementation could read them and theirs were misread.
---
 src/lib/PMsgPack.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index c4ba12e..fd41907 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -137,12 +137,12 @@ namespace {
         } else if (block.size <= 0xFFFE) {
             uint16_t sz = block.size;
             out.write_byte(0xC5);
-            out.write(sz);
+            out.write(swap_bytes(sz));
 
         } else {
             uint32_t sz = block.size;
             out.write_byte(0xC6);
-            out.write(sz);
+            out.write(swap_bytes(sz));
         }
 
         out.write(block.ptr, block.size);
@@ -164,12 +164,12 @@ namespace {
         } else if (block.size <= 0xFFFE) {
             uint16_t sz = block.size;
             out.write_byte(0xDA);
-            out.write(sz);
+            out.write(swap_bytes(sz));
 
         } else {
             uint32_t sz = block.size;
             out.write_byte(0xDB);
-            out.write(sz);
+            out.write(swap_bytes(sz));
         }
 
         out.write(block.ptr, block.size);
@@ -284,8 +284,8 @@ namespace {
 
         return prefix >= 0xA0 && prefix <= 0xBF ? (prefix & 0x1F)
              : prefix == 0xD9 ? in.read_move<uint8_t>(error)
-             : prefix == 0xDA ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xDA ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     size_t get_bin_size(uint8_t prefix, In& in)
@@ -293,8 +293,8 @@ namespace {
         assert(prefix_is_bin(prefix));
 
         return prefix == 0xC4 ? in.read_move<uint8_t>(error)
-             : prefix == 0xC5 ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xC5 ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     Value read_str(uint8_t prefix, In& in)
-- 
2.43.0


From 11d3afddaad6805a2c188d1d8b454b02b6671dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 08/58] fix: the MessagePack prefix 0xC1 and binaries are not
 scalars

"<= 0xC3" made every prefix up to 0xC3 a scalar.
---
 src/lib/PMsgPack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index fd41907..52fa1ed 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -240,7 +240,7 @@ namespace {
     {
         return (prefix >= 0xCA && prefix <= 0xD3) || // integers / floats
                 prefix <= 0x7F || prefix >= 0xE0  || // pos fixnum / neg fixnum
-                prefix == 0xC2 || prefix <= 0xC3  || // true / false
+                prefix == 0xC2 || prefix == 0xC3  || // true / false
                 prefix == 0xC0;                      // null
     }
 
-- 
2.43.0


From deb44f141ff97e8ae2d44040007e12e267b125cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 09/58] fix: a torn MessagePack document no longer looks
 complete

Counts are patched in when a scope ends. Until then they were 0, so that what
a crashed writer left behind was read as a complete document without content.
---
 src/lib/PMsgPack.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index 52fa1ed..c7a7eea 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -407,6 +407,9 @@ void PMsgPack::write_scope(Type type, Out& out)
 
    out.write(prefix);
    auto ticket = out.reserve(4);
+   /* until the count is known: a torn document must not look like one with empty scopes */
+   const uint32_t unknown = 0xFFFFFFFF;
+   out.write(ticket, (const uint8_t*)&unknown, 0, sizeof(unknown));
    this->scope_stack.emplace(type, 0, ticket);
    this->scope = &this->scope_stack.top();
 }
-- 
2.43.0


From d9f9cc10fd8cf6f2ce164a8c20f7ca51bc1728fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 10/58] fix: escape field names in JSON documents

---
 src/lib/PJson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 9e76f13..d7ce27b 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -107,7 +107,7 @@ void PJson::write(const Value& value, const MemBlock& name, Out& out)
        this->scope_type != Type::Array &&
        type != Type::Scope_End) {
 
-        insert_in_quotes(out, name);
+        insert_in_quotes(out, name, true);
         out.write(':');
 
         if(!this->compact) {
-- 
2.43.0


From fe45f5a8c790b6a74a7396b3c997ce63663b8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 11/58] fix: escape all control characters in JSON strings

Only those with a short escape were escaped, the others made the document
invalid.
---
 src/lib/PJson.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index d7ce27b..68ff16b 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -28,12 +28,38 @@ namespace {
         return array<const char, 2> { { '\\', c } };
     }
 
+    /* control characters without a short form */
+    bool needs_uc_literal(uint8_t c)
+    {
+        return c < 0x20 && c != '\n' && c != '\t' && c != '\r' && c != '\b' && c != '\f';
+    }
+
+    void write_uc_literal(uint8_t c, Out& out)
+    {
+        auto hex = Tools::bytes_to_hex(&c, 1);
+
+        out.write((const uint8_t*)"\\u00", 4);
+        out.write(hex.data(), hex.size());
+    }
+
     void write_escape(const MemBlock& str, Out& out)
     {
-        out.write_substitute(str,
-            '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
-            '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
-        );
+        for(size_t pos = 0, start = 0; pos <= str.size; pos++) {
+
+            if(pos < str.size && !needs_uc_literal(str.ptr[pos])) {
+                continue;
+            }
+
+            out.write_substitute(MemBlock(str.ptr + start, pos - start),
+                '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
+                '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
+            );
+
+            if(pos < str.size) {
+                write_uc_literal(str.ptr[pos], out);
+            }
+            start = pos + 1;
+        }
     }
 
     MemBlock read_unescape(In& in, vector<uint8_t>& buffer)
-- 
2.43.0


From 7088ebbb96546cd397054515c0a91a15cf90dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 12/58] fix: read \uXXXX escapes of JSON strings as the
 characters they stand for

The bytes of the code unit were swapped and surrogate pairs refused.
---
 src/lib/PJson.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 68ff16b..ae7cfec 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -13,14 +13,30 @@ namespace {
         throw Exception("Unable to parse JSON document. Index out of bounds.");
     };
 
-    const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
-        uint8_t hex_buffer[2];
+    void read_uc_unit(In& src, uint8_t* unit)
+    {
         /* skip "\u" and read 4 hex digits */
         auto block = src.read_block(2 + 4, error);
 
-        Tools::hex_to_bytes(hex_buffer, 2, block.ptr + 2, 4);
+        Tools::hex_to_bytes(unit, 2, block.ptr + 2, 4);
+        /* the digits are written most significant first, utf-16 strings are little-endian */
+        swap(unit[0], unit[1]);
+    }
+
+    const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
+        uint8_t units[4];
+        size_t  size = 2;
+        read_uc_unit(src, units);
+
+        /* first half of a surrogate pair */
+        bool paired = (units[1] & 0xFC) == 0xD8;
+
+        if(paired && src.try_peek(2) && src.pointer()[0] == '\\' && src.pointer()[1] == 'u') {
+            read_uc_unit(src, units + 2);
+            size = 4;
+        }
 
-        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, 2, Encoding::UTF16), buf, true, idx);
+        return Tools::conv_charset(Encoding::UTF8, String(units, size, Encoding::UTF16), buf, true, idx);
     };
 
     constexpr array<const char, 2> ar(const char c)
-- 
2.43.0


From 01c1b22969b64110b993952a16e4e869ce229c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 13/58] fix: continue at the right position when a converted
 string outgrows its buffer

The offset at which the result starts was counted twice.
---
 src/lib/ToolsStrConv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index c554a22..fa09124 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -379,8 +379,8 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
             auto current = buffer.size();
             auto new_size = buffer.size() + left_in * 4;
             buffer.resize(new_size);
-            converted = current - left_out;
-            left_out = new_size - converted;
+            converted = current - buffer_index - left_out;
+            left_out = new_size - buffer_index - converted;
         }
     }
 
-- 
2.43.0


From c36d30dfddca5402a4bf353940328fc091a239c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 14/58] fix: close the iconv descriptor when the conversion
 buffer cannot grow

---
 src/lib/ToolsStrConv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index fa09124..ddb996b 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -336,6 +336,10 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         return 0;
     }
 
+    /* closes the descriptor however this function is left */
+    const auto close = [](iconv_t* d) { iconv_close(*d); };
+    unique_ptr<iconv_t, decltype(close)> guard(&desc, close);
+
     size_t left_in = str_wrap.size();
     size_t reserve = left_in * (
         target_encoding < src_encoding ? 1 : src_encoding == Encoding::UTF16 ? 2 : 4
@@ -359,7 +363,6 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
 
         if(errno == EINVAL) {
-            iconv_close(desc);
             if(throw_error) {
                 throw Exception("Unable to convert charset. Incomplete byte sequence.");
             }
@@ -367,7 +370,6 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
 
         if(errno == EILSEQ) {
-            iconv_close(desc);
             if(throw_error) {
                 throw Exception("Unable to convert charset. Invalid byte sequence.");
             }
@@ -384,7 +386,5 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
     }
 
-    iconv_close(desc);
-
     return buffer.size() - buffer_index - left_out;
 }
-- 
2.43.0


From af77ba9ee0c81e6609bcfad8ce960c6abfd9fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 15/58] fix: do not index the base64 table with negative
 characters

---
 src/lib/ToolsBtsConv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/ToolsBtsConv.cpp b/src/lib/ToolsBtsConv.cpp
index a500d98..9a55a94 100644
--- a/src/lib/ToolsBtsConv.cpp
+++ b/src/lib/ToolsBtsConv.cpp
@@ -113,10 +113,10 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
     for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size;
                out_idx += 3, in_idx += 4) {
 
-        uint8_t b0 = table.decode[ (size_t) str[in_idx] ],
-                b1 = table.decode[ (size_t) str[in_idx + 1] ],
-                b2 = table.decode[ (size_t) str[in_idx + 2] ],
-                b3 = table.decode[ (size_t) str[in_idx + 3] ];
+        uint8_t b0 = table.decode[ (uint8_t) str[in_idx] ],
+                b1 = table.decode[ (uint8_t) str[in_idx + 1] ],
+                b2 = table.decode[ (uint8_t) str[in_idx + 2] ],
+                b3 = table.decode[ (uint8_t) str[in_idx + 3] ];
 
         if(b0 == table.val_invalid || b1 == table.val_invalid ||
            b2 == table.val_invalid || b3 == table.val_invalid) {
-- 
2.43.0


From 14c2dff3ad81f962d5fa4bbad9e09c68914b057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 16/58] fix: terminate wide character arrays where their
 converted content ends

The terminator was placed by the size before the conversion, which could be
beyond the array, and storing an array without terminator read beyond its end.
---
 include/Srl/Resolve.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index e515c00..8aeeabd 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -175,7 +175,7 @@ namespace Srl { namespace Lib {
         static WrapArray(const T& str)
         {
             size_t size = 0;
-            while(size < str_size && str[size]) size++;
+            while(size < str_size / chr_size && str[size]) size++;
 
             return MemBlock(reinterpret_cast<const uint8_t*>(str), size * chr_size);
         }
@@ -207,7 +207,7 @@ namespace Srl { namespace Lib {
 
                 Aux::check_size_max(str_size, conv_size, id);
                 memcpy(str, buffer.data(), conv_size);
-                str[value.size() / chr_size] = 0;
+                str[conv_size / chr_size] = 0;
             }
         }
     };
-- 
2.43.0


From f02b533b91ce35c0e946042bcec60fd87ec7e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 17/58] fix: keep the smallest 64 bit integer, 2^63 and 20
 digit numbers apart in text

-2^63 was turned into a floating point number, the double 2^63 was written as
-2^63 and some integers of 20 digits were read modulo 2^64.
---
 src/lib/ToolsStrConv.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index ddb996b..680225d 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -58,7 +58,6 @@ namespace {
             idx = 1;
         }
 
-        uint64_t tmp = 0;
         for(char c = '\0'; idx < str_len; idx++) {
             c = str[idx];
 
@@ -66,15 +65,15 @@ namespace {
                 break;
             }
 
-            tmp = val * 10 + c - '0';
-            if(tmp < val) {
+            uint64_t digit = c - '0';
+            if(val > (numeric_limits<uint64_t>::max() - digit) / 10) {
                 /* overflow */
                 break;
             }
-            val = tmp;
+            val = val * 10 + digit;
         }
 
-        bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
+        bool success = idx >= str_len && (!is_signed || val <= (uint64_t)1 << 63);
 
         return make_tuple(val, is_signed, success);
     }
@@ -134,7 +133,7 @@ namespace {
     {
         double val = type == Type::FP64 ? value.pblock().fp64 : value.pblock().fp32;
 
-        if(floor(val) == val && val <= (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
+        if(floor(val) == val && val < (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
 
             return conv_type<Type::I64>((int64_t)val, out);
         }
@@ -219,7 +218,7 @@ pair<bool, Value> Tools::str_to_type(const uint8_t* str, size_t str_len, Type hi
         tie(i, is_signed, success) = str_to_int(str, str_len);
 
         if(success) {
-            return is_signed ? make_pair(true, Value(-(int64_t)i)) : make_pair(true, Value(i));
+            return is_signed ? make_pair(true, Value((int64_t)(0 - i))) : make_pair(true, Value(i));
         }
     }
 
-- 
2.43.0


From ec3826b4fae82f44ec09d5a027c5184d4526348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 18/58] fix: converting NaN, 2^63 or 2^64 to an integer is an
 overflow

---
 include/Srl/TpTools.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Srl/TpTools.h b/include/Srl/TpTools.h
index 32d973e..5adb4e1 100644
--- a/include/Srl/TpTools.h
+++ b/include/Srl/TpTools.h
@@ -4,6 +4,7 @@
 #include "Type.h"
 #include "Value.h"
 
+#include <cmath>
 #include <limits>
 
 namespace Srl { namespace TpTools {
@@ -149,8 +150,12 @@ namespace Srl { namespace TpTools {
         {
             double val = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;
 
+            /* as a double, the biggest 64 bit integer is rounded up to a number out of range */
+            bool no_integer = std::is_integral<T>::value &&
+                (std::isnan(val) || (sizeof(T) == sizeof(uint64_t) && val >= (double)max<T>()));
+
             if(SrlType<T>::type != TP && SrlType<T>::type != Type::FP64 &&
-              (val < min<T>() || val > (double)max<T>())) {
+              (no_integer || val < min<T>() || val > (double)max<T>())) {
 
                 return false;
             }
-- 
2.43.0


From ca5f728c27ed9fbc5fa1e957171bdfb6621e22e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 19/58] fix: skip nested scopes completely when leaving a
 partially read scope

The end of the first nested scope was taken for the end of the scope itself.
---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 9051a2f..da6db7d 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -527,7 +527,7 @@ void Node::consume_scope()
 
         if(tp == Type::Scope_End) {
             depth--;
-            if(depth <= 0) {
+            if(depth < 0) {
                 this->parsed = true;
             }
         }
-- 
2.43.0


From c84d08d04713fff6f383cbd15f5e84e461bff86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 20/58] fix: Node::get with an index out of bounds throws
 instead of dereferencing null

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index da6db7d..53c8804 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -238,7 +238,7 @@ Union Node::get(size_t index)
         return Union(resnode->field);
     }
 
-    auto* resvalue = get_link_at_index<None>(index, this->values);
+    auto* resvalue = get_link_at_index<Throw>(index, this->values);
 
     return Union(resvalue->field);
 }
-- 
2.43.0


From 68ce1c25de63ee2b275c1cc5b676408c8d5c43da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 21/58] fix: saving a Node that was never inserted anywhere
 does not dereference null

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 53c8804..ca870eb 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -508,7 +508,7 @@ void Node::to_source()
     }
 
     Value scope_end = Value(Type::Scope_End);
-    this->env->write(scope_end, *this->name_ptr);
+    this->env->write(scope_end, this->name());
 }
 
 void Node::consume_scope()
-- 
2.43.0


From 8abfea69ff320489a5b2b1da97fe6af490cca6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 22/58] fix: a tree whose store or pack failed does not keep
 writing to the old output

The flag which sends inserted items to the output stayed set when an exception
left store() or pack().
---
 include/Srl/Environment.h |  7 +++++++
 include/Srl/Tree.hpp      | 12 +++++++-----
 src/lib/Tree.cpp          | 14 ++++++++------
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 5163c0c..08c1108 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -79,6 +79,13 @@ namespace Lib {
 
         void clear();
 
+        /* content is written to the output instead of being stored until the end of the scope */
+        struct Parsing {
+            Parsing(Environment& env_) : env(env_) { env.parsing = true; }
+            ~Parsing() { env.parsing = false; }
+
+            Environment& env;
+        };
     };
 } }
 
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index a05fbba..8e25711 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -56,15 +56,17 @@ namespace Srl {
         }
 
         this->env->set_output(parser, out);
-        this->env->parsing = true;
 
-        this->env->write(Value(Type::Object), "");
+        {
+            Lib::Environment::Parsing parsing(*this->env);
 
-        this->root_node->insert(items...);
+            this->env->write(Value(Type::Object), "");
 
-        this->env->write(Value(Type::Scope_End), "");
+            this->root_node->insert(items...);
+
+            this->env->write(Value(Type::Scope_End), "");
+        }
 
-        this->env->parsing = false;
         this->env->out.flush();
     }
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 680928c..cd12162 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -55,16 +55,18 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
         this->create_env();
     }
     this->env->set_output(parser, source);
-    this->env->parsing = true;
 
-    auto& name = this->root_node->name();
-    this->env->write(Value(type), name);
+    {
+        Environment::Parsing parsing(*this->env);
 
-    store_switch();
+        auto& name = this->root_node->name();
+        this->env->write(Value(type), name);
 
-    this->env->write(Value(Type::Scope_End), name);
+        store_switch();
+
+        this->env->write(Value(Type::Scope_End), name);
+    }
 
-    this->env->parsing = false;
     this->env->out.flush();
 }
 
-- 
2.43.0


From 262cb6333060966045f04e103ecec04ea2428869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 23/58] fix: do not hand out memory of the heap twice after an
 allocation failed

---
 src/lib/Heap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index a069ace..9ffe797 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -189,6 +189,8 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
 
     if(this->crr_seg && crr_seg->left > 0) {
         this->put_mem(crr_seg->pointer(), this->crr_seg->left);
+        /* what was left belongs to the free segments now, also if this allocation fails */
+        this->crr_seg = nullptr;
     }
 
     if(chain.free_segs.front && (seg = find_free_seg(n, align))) {
-- 
2.43.0


From 9441bcc0d9171f62073ca4b6e339c10ea5db5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 24/58] fix: a value whose content could not be copied is not
 inserted

It stayed in the node, pointing to memory of the caller.
---
 src/lib/Environment.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/Environment.cpp b/src/lib/Environment.cpp
index 3b3013a..8d7af66 100644
--- a/src/lib/Environment.cpp
+++ b/src/lib/Environment.cpp
@@ -132,14 +132,14 @@ Link<Node>* Environment::create_node(Type type, const String& name)
 
 Link<Value>* Environment::store_value(Node& parent, const Value& value, const String& name)
 {
-    auto* link = this->create_link(parent.values, value, name);
-    auto& block = link->field.block;
+    Value stored = value;
+    auto& block = stored.block;
 
     if(!block.stored_local && !block.try_store_local()) {
         block.extern_data = Aux::copy(this->heap, { block.extern_data, block.size }).ptr;
     }
 
-    return link;
+    return this->create_link(parent.values, stored, name);
 }
 
 void Environment::write(const Value& value, const String& field_name)
-- 
2.43.0


From 206736de8440d4215cea4935caaf67d8984f6376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 25/58] fix: moving a hash table moves the memory of its
 entries

The entries stayed on the heap of the table that was moved from.
---
 include/Srl/Hash.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index a25c667..b56744b 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -24,6 +24,12 @@ namespace Srl { namespace Lib {
 
         this->table     = m.table;
         this->mem_cache = std::move(m.mem_cache);
+        this->hash_fnc  = std::move(m.hash_fnc);
+        /* the entries live on the heap of the other table */
+        this->heap      = std::move(m.heap);
+
+        m.table = nullptr;
+        m.mem_cache.clear();
 
         return *this;
     }
-- 
2.43.0


From 39737527278ffd55c7dd28c0775c3a6d62d86c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 26/58] fix: a hash table that could not grow stays usable

The capacity was changed before the new table was allocated.
---
 include/Srl/Hash.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index b56744b..5b3c989 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -56,16 +56,15 @@ namespace Srl { namespace Lib {
     {
         if(this->limit == 0) {
             /* initial allocation */
+            this->table = this->alloc_table(std::max((size_t)1, this->cap));
             this->set_capacity(this->cap);
-            this->table = this->alloc_table(this->cap);
 
             return;
         }
 
         auto old_dim = this->cap;
-        this->set_capacity(this->cap * 2);
-
-        auto* ntable = alloc_table(this->cap);
+        auto* ntable = alloc_table(old_dim * 2);
+        this->set_capacity(old_dim * 2);
 
         for(auto i = 0U; i < old_dim; i++) {
             auto* entry = table[i];
@@ -90,8 +89,9 @@ namespace Srl { namespace Lib {
             }
         }
 
-        this->heap.put_mem((uint8_t*)this->table, old_dim * sizeof(nullptr));
+        auto* old_table = this->table;
         this->table = ntable;
+        this->heap.put_mem((uint8_t*)old_table, old_dim * sizeof(nullptr));
     }
 
 
@@ -236,7 +236,7 @@ namespace Srl { namespace Lib {
     typename HTable<K, V, H>::Entry** HTable<K, V, H>::alloc_table(size_t sz)
     {
         Entry** tbl = this->heap.template get_mem<Entry*>(sz);
-        memset(tbl, 0, this->cap * sizeof(nullptr));
+        memset(tbl, 0, sz * sizeof(nullptr));
         return tbl;
     }
 
-- 
2.43.0


From d7be58838ea1f8be3eabf50c8bd998ceffe79149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 27/58] fix: removing from a hash table keeps it consistent
 when something throws

The number of entries was updated after steps that can throw: remembering the
freed memory, moving the extracted value and calling the predicate.
---
 include/Srl/Hash.h   |  2 ++
 include/Srl/Hash.hpp | 41 ++++++++++++++++++++++-------------------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/Srl/Hash.h b/include/Srl/Hash.h
index 66a176d..6b1080c 100644
--- a/include/Srl/Hash.h
+++ b/include/Srl/Hash.h
@@ -124,6 +124,8 @@ namespace Srl { namespace Lib {
 
         Entry* get_rm (const Key& k, uint64_t hash);
 
+        void recycle(Entry* entry) noexcept;
+
         template<class KV, class... Args>
         std::pair<bool, Val*> insert_hash (uint64_t hash, bool update_on_dup, KV&& key, Args&&... args);
 
diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index 5b3c989..a816b41 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -290,7 +290,7 @@ namespace Srl { namespace Lib {
         }
 
         auto n = 0U;
-        auto n_deleted = 0U;
+        const auto total = this->elements;
 
         for(auto i = 0U; i < this->cap; i++) {
 
@@ -304,8 +304,6 @@ namespace Srl { namespace Lib {
 
                 if(do_rm) {
 
-                    n_deleted++;
-
                     if(prev) {
                         prev->next = entry->next;
                     } else {
@@ -315,7 +313,8 @@ namespace Srl { namespace Lib {
                     destroy_item<K>(entry->key);
                     destroy_item<V>(entry->val);
 
-                    this->mem_cache.push_back(entry);
+                    this->recycle(entry);
+                    this->elements--;
 
                 } else {
                     prev = entry;
@@ -324,12 +323,10 @@ namespace Srl { namespace Lib {
                 entry = entry->next;
             }
 
-            if(n >= this->elements) {
+            if(n >= total) {
                 break;
             }
         }
-
-        this->elements -= n_deleted;
     }
 
 
@@ -341,29 +338,35 @@ namespace Srl { namespace Lib {
 
         if(entry) {
             destroy_item<Entry>(*entry);
-            this->mem_cache.push_back(entry);
+            this->recycle(entry);
             elements--;
         }
     }
 
     template<class K, class V, class H>
-    std::optional<V> HTable<K, V, H>::extract(const K& key)
+    void HTable<K, V, H>::recycle(Entry* entry) noexcept
     {
-        auto hash   = hash_fnc(key);
-        auto* entry = get_rm(key, hash);
-
-        if(entry) {
+        try {
+            this->mem_cache.push_back(entry);
 
-            V res = std::move(entry->val);
-            destroy_item<Entry>(*entry);
+        } catch(const std::bad_alloc&) {
+            /* the memory stays with the heap until the table is cleared */
+        }
+    }
 
-            this->mem_cache.push_back(entry);
-            elements--;
+    template<class K, class V, class H>
+    std::optional<V> HTable<K, V, H>::extract(const K& key)
+    {
+        auto* val = this->get(key);
 
-            return res;
+        if(!val) {
+            return { };
         }
 
-        return { };
+        std::optional<V> res(std::move(*val));
+        this->remove(key);
+
+        return res;
     }
 
     template<class K, class V, class H> template<class T>
-- 
2.43.0


From 25343a67b6242fafc73f63d16140c024a32b3fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 28/58] fix: updating a hash table entry keeps the old value if
 the new one throws

---
 include/Srl/Hash.h   |  8 ++++++++
 include/Srl/Hash.hpp | 22 +++++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/Srl/Hash.h b/include/Srl/Hash.h
index 6b1080c..56d90f3 100644
--- a/include/Srl/Hash.h
+++ b/include/Srl/Hash.h
@@ -126,6 +126,14 @@ namespace Srl { namespace Lib {
 
         void recycle(Entry* entry) noexcept;
 
+        template<class T, class... Args>
+        typename std::enable_if<std::is_move_constructible<T>::value, void>::type
+        replace(T& val, Args&&... args);
+
+        template<class T, class... Args>
+        typename std::enable_if<!std::is_move_constructible<T>::value, void>::type
+        replace(T& val, Args&&... args);
+
         template<class KV, class... Args>
         std::pair<bool, Val*> insert_hash (uint64_t hash, bool update_on_dup, KV&& key, Args&&... args);
 
diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index a816b41..280c37d 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -181,9 +181,7 @@ namespace Srl { namespace Lib {
             if(entry->hash == hash && entry->key == key) {
 
                 if(update_on_dup) {
-
-                    this->destroy_item(entry->val);
-                    new (&entry->val) V(std::forward<Args>(args)...);
+                    this->replace(entry->val, std::forward<Args>(args)...);
                 }
 
                 return { true, &entry->val };
@@ -218,6 +216,24 @@ namespace Srl { namespace Lib {
         return { false, &(new_entry->val) };
     }
 
+    /* the old value is kept if the new one cannot be constructed, and may be one of the arguments */
+    template<class K, class V, class H> template<class T, class... Args>
+    typename std::enable_if<std::is_move_constructible<T>::value, void>::type
+    HTable<K, V, H>::replace(T& val, Args&&... args)
+    {
+        T tmp(std::forward<Args>(args)...);
+        this->destroy_item(val);
+        new (&val) T(std::move(tmp));
+    }
+
+    template<class K, class V, class H> template<class T, class... Args>
+    typename std::enable_if<!std::is_move_constructible<T>::value, void>::type
+    HTable<K, V, H>::replace(T& val, Args&&... args)
+    {
+        this->destroy_item(val);
+        new (&val) T(std::forward<Args>(args)...);
+    }
+
     template<class K, class V, class H>
     void HTable<K, V, H>::clear()
     {
-- 
2.43.0


From 1887e40aa8000428b1a7525acf4cf28113edf316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 29/58] fix: a failed restore does not leave a raw pointer to a
 deleted object

The old object of a raw (or polymorphic) pointer is deleted before its
replacement is read. When reading failed the pointer kept pointing to the
deleted object, so that its owner deleted it a second time.
---
 include/Srl/Resolve.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 8aeeabd..94f0725 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -457,6 +457,7 @@ namespace Srl { namespace Lib {
 
             if(o != nullptr) {
                 delete o;
+                o = nullptr;
             }
 
             auto uptr = Lib::registrations()->create<U>(type_id);
@@ -706,6 +707,7 @@ namespace Srl { namespace Lib {
 
             if(p != nullptr) {
                 delete p;
+                p = nullptr;
             }
 
             auto val_type = item.type();
-- 
2.43.0


From 147d119bddfa2232d4882910b2fbad958dfd85ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 30/58] fix: an empty unique_ptr to a value is restored as an
 empty unique_ptr

It is stored as null, which could not be converted back: restoring
numbers threw and strings came back as a pointer to an empty string.
---
 include/Srl/Resolve.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 94f0725..6c75519 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -737,6 +737,11 @@ namespace Srl { namespace Lib {
         template<class Item, class ID = String>
         static void Paste(T& p, Item& item, const ID& id = Aux::str_empty)
         {
+            if(item.type() == Type::Null) {
+                p = T();
+                return;
+            }
+
             E* content = nullptr;
             Apply(content, item, id);
             p = T(content);
-- 
2.43.0


From 0aa4c12238c8d839655fcec249fa093a841f9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 31/58] fix: a tree stays usable when its root could not be
 allocated

Clearing a tree frees the root node and allocates a new one. When that
allocation failed the tree kept pointing to the freed node, and a tree
whose first root could not be allocated dereferenced null.
---
 include/Srl/Tree.hpp | 6 +++---
 src/lib/Tree.cpp     | 9 +++++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index 8e25711..5b3513e 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -62,7 +62,7 @@ namespace Srl {
 
             this->env->write(Value(Type::Object), "");
 
-            this->root_node->insert(items...);
+            this->root().insert(items...);
 
             this->env->write(Value(Type::Scope_End), "");
         }
@@ -86,7 +86,7 @@ namespace Srl {
         if(!this->env) {
             this->create_env();
         }
-        this->root_node->to_source(source, parser);
+        this->root().to_source(source, parser);
     }
 
     template<class TParser>
@@ -95,7 +95,7 @@ namespace Srl {
         if(!this->env) {
             this->create_env();
         }
-        return this->root_node->to_source(parser);
+        return this->root().to_source(parser);
     }
 
     template<class TParser>
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index cd12162..d745bcf 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -59,7 +59,7 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
     {
         Environment::Parsing parsing(*this->env);
 
-        auto& name = this->root_node->name();
+        auto& name = this->root().name();
         this->env->write(Value(type), name);
 
         store_switch();
@@ -89,6 +89,9 @@ Node& Tree::root()
     if(!this->env) {
         this->create_env();
     }
+    if(!this->root_node) {
+        this->root_node = &this->env->create_node(Srl::Type::Object, "")->field;
+    }
     return *this->root_node;
 }
 
@@ -110,8 +113,10 @@ void Tree::clear()
         return;
     }
 
-    auto rtp = this->root().scope_type;
+    auto rtp = this->root_node ? this->root_node->scope_type : Srl::Type::Object;
 
+    /* the heap of the environment owns the node */
+    this->root_node = nullptr;
     this->env->clear();
     this->root_node = &env->create_node(rtp, "")->field;
 }
-- 
2.43.0


From b51b17173c93b21152ec1d8de75d33ce4e5332cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 32/58] fix: a tree does not read from its source after restore
 or unpack returned

The root stayed in the state in which it reads its fields on demand, so
that asking it for a field afterwards (has_value(), or a second unpack that
follows a failed one) read from memory or a stream which may be gone.
---
 include/Srl/Tree.h   |  8 ++++++++
 include/Srl/Tree.hpp |  2 +-
 src/lib/Tree.cpp     | 12 +++++++++++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Tree.h b/include/Srl/Tree.h
index 7d890d1..e8e4d7e 100644
--- a/include/Srl/Tree.h
+++ b/include/Srl/Tree.h
@@ -76,6 +76,14 @@ namespace Srl {
 
         Node* root_node = nullptr;
 
+        /* the source is read on demand until the end of the scope, it may be gone afterwards */
+        struct Consuming {
+            Consuming(Tree& tree_);
+            ~Consuming();
+
+            Tree& tree;
+        };
+
         void to_source(Type type, Parser& parser, Lib::Out::Source out, const std::function<void()>& store_switch);
 
         void read_source (Parser& parser, Lib::In::Source source);
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index 5b3513e..0bda70f 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -75,7 +75,7 @@ namespace Srl {
     {
         this->prologue_in(parser, in);
 
-        this->root_node->parsed = false;
+        Consuming consuming(*this);
 
         this->root_node->paste(items...);
     }
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index d745bcf..3476290 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -79,11 +79,21 @@ void Tree::read_source(Parser& parser, In::Source source)
 void Tree::read_source(Parser& parser, In::Source source, const function<void()>& restore_switch)
 {
     prologue_in(parser, source);
-    this->root_node->parsed = false;
+    Consuming consuming(*this);
 
     restore_switch();
 }
 
+Tree::Consuming::Consuming(Tree& tree_) : tree(tree_)
+{
+    this->tree.root_node->parsed = false;
+}
+
+Tree::Consuming::~Consuming()
+{
+    this->tree.root_node->parsed = true;
+}
+
 Node& Tree::root()
 {
     if(!this->env) {
-- 
2.43.0


From bb76d8902077c6f507ac69c501e28271c045d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 33/58] fix: do not take an object for another one that had the
 same address

Shared objects were told apart by their address alone. When an object died
before the next one was inserted, or a member was shared along with the
object it is the first member of, the second object was stored as a
reference to the first one.
---
 include/Srl/Environment.h | 35 +++++++++++++++++++++++++++++++----
 include/Srl/Node.h        |  2 +-
 include/Srl/Resolve.hpp   | 11 ++++++++++-
 src/lib/Environment.cpp   |  2 +-
 src/lib/Node.cpp          | 16 +++++++++++-----
 5 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 08c1108..c686288 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -9,6 +9,8 @@
 #include "Out.h"
 
 #include <list>
+#include <memory>
+#include <typeinfo>
 
 namespace Srl {
 
@@ -29,14 +31,39 @@ namespace Lib {
     using Items = std::list<Lib::Link<T>, Lib::HeapAllocator<Lib::Link<T>>>;
 
 
-    template<> struct HashSrl<const void*> {
-        size_t operator()(const void* v) const
+    /* objects of different types might share an address (a member and the object it belongs to) */
+    struct SharedID {
+        const void*           address;
+        const std::type_info* type;
+
+        bool operator== (const SharedID& o) const
+        {
+            return this->address == o.address && *this->type == *o.type;
+        }
+    };
+
+    template<> struct HashSrl<SharedID> {
+        size_t operator()(const SharedID& id) const
         {
-            uint64_t addr = (uint64_t)v;
+            uint64_t addr = (uint64_t)id.address;
             return HashSrl<uint64_t>()(addr);
         }
     };
 
+    struct SharedStore {
+        /* the weak_ptr tells whether the address still belongs to the same object */
+        typedef std::pair<size_t, std::weak_ptr<const void>> Entry;
+
+        HTable<SharedID, Entry> table { 16 };
+        size_t                  next_key = 0;
+
+        void clear()
+        {
+            this->table.clear();
+            this->next_key = 0;
+        }
+    };
+
     struct Environment {
 
         static const String EmptyString;
@@ -48,7 +75,7 @@ namespace Lib {
         Heap                   heap;
         HTable<String, String> str_table;
 
-        HTable<const void*, size_t>           shared_table_store   { 16 };
+        SharedStore                           shared_store;
         HTable<size_t, std::shared_ptr<void>> shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 3d69ae0..c12dc93 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -126,7 +126,7 @@ namespace Srl {
         void open_scope (void (*Insert)(Node& node, const Args&... args),
                          Type node_type, const String& name, const Args&... args);
 
-        std::pair<bool, uint64_t> insert_shared (const void* obj);
+        std::pair<bool, uint64_t> insert_shared (const std::shared_ptr<const void>& obj, const std::type_info& type);
         std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::function<std::shared_ptr<void>(void)>& create);
 
         Node& insert_node  (const Node& node, const String& name);
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 6c75519..0304830 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -775,10 +775,19 @@ namespace Srl { namespace Lib {
                 Switch<std::nullptr_t>::Insert(nullptr, node, name);
                 return;
             }
-            auto key = node.insert_shared(p.get());
+            auto key = node.insert_shared(p, SharedType<E>());
             node.open_scope(&Insert_Key, Type::Object, name, p, !key.first, key.second);
         }
 
+        /* a polymorphic object might be referenced through different base classes */
+        template<class C>
+        static typename std::enable_if<is_polymorphic<C*>::value, const std::type_info&>::type
+        SharedType() { return typeid(TypeID); }
+
+        template<class C>
+        static typename std::enable_if<!is_polymorphic<C*>::value, const std::type_info&>::type
+        SharedType() { return typeid(C); }
+
         static void Insert_Key(Node& node, const T& p, const bool& first, const uint64_t& key)
         {
             node.insert_value(key, Aux::str_shared_key);
diff --git a/src/lib/Environment.cpp b/src/lib/Environment.cpp
index 8d7af66..96243eb 100644
--- a/src/lib/Environment.cpp
+++ b/src/lib/Environment.cpp
@@ -221,6 +221,6 @@ void Environment::clear()
 {
     this->heap.clear();
     this->str_table.clear();
-    this->shared_table_store.clear();
+    this->shared_store.clear();
     this->shared_table_restore.clear();
 }
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index ca870eb..55a7b9f 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -534,14 +534,20 @@ void Node::consume_scope()
     }
 }
 
-pair<bool, uint64_t> Node::insert_shared (const void* obj)
+pair<bool, uint64_t> Node::insert_shared (const shared_ptr<const void>& obj, const type_info& type)
 {
-    bool exists; size_t* key;
-    auto& table = this->env->shared_table_store;
+    auto& store = this->env->shared_store;
+    SharedID id { obj.get(), &type };
 
-    tie(exists, key) = table.insert(obj, table.num_entries());
+    auto* entry = store.table.get(id);
 
-    return { exists, *key };
+    if(entry && !entry->second.expired()) {
+        return { true, entry->first };
+    }
+
+    store.table.upsert(id, SharedStore::Entry(store.next_key, obj));
+
+    return { false, store.next_key++ };
 }
 
 pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const function<shared_ptr<void>(void)>& create)
-- 
2.43.0


From 4bf75a2774a86125a07d3ea8936f8f7a5411b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 34/58] fix: storing with a used tree does not refer to objects
 of earlier documents

Tree::store() kept the keys of shared objects that had been written to
earlier outputs, so that a second document contained references without
the objects they refer to and could not be restored.
---
 include/Srl/Environment.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index c686288..4c96ce5 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -108,10 +108,21 @@ namespace Lib {
 
         /* content is written to the output instead of being stored until the end of the scope */
         struct Parsing {
-            Parsing(Environment& env_) : env(env_) { env.parsing = true; }
-            ~Parsing() { env.parsing = false; }
+            Parsing(Environment& env_) : env(env_)
+            {
+                std::swap(env.shared_store, outer);
+                env.parsing = true;
+            }
+
+            ~Parsing()
+            {
+                env.parsing = false;
+                std::swap(env.shared_store, outer);
+            }
 
             Environment& env;
+            /* shared objects outside of the document which is being written */
+            SharedStore  outer;
         };
     };
 } }
-- 
2.43.0


From 860812845924dae95ec62f67daaaee94fa7ba782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 35/58] fix: a loaded object determines whether the root is an
 object or an array

Tree::load_object() kept the type of the previous root. Lists were saved
as objects with unnamed fields, and objects loaded after a list as arrays.
---
 include/Srl/Tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index 0bda70f..3b89e80 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -163,6 +163,10 @@ namespace Srl {
     void Tree::load_object(const T& type)
     {
         this->clear();
+
+        if(TpTools::is_scope(Lib::Switch<T>::type)) {
+            this->root().scope_type = Lib::Aux::TypeSwitch<T>::type;
+        }
         Lib::Aux::TypeSwitch<T>::Insert(type, *this);
     }
 }
-- 
2.43.0


From 4bda329d0e75da76656cfc0a369e47fff44f57fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 36/58] fix: a type id of an unrelated class does not
 reinterpret the created object

The id of a polymorphic object comes from the source. The object that was
created for it was cast to the requested class whether or not it derives
from it (and without adjusting the pointer if it has several bases).
---
 include/Srl/Registration.h | 57 ++++++++++++++++++++++++++++++++------
 src/lib/Registration.cpp   |  6 ++--
 2 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index 86c7a7a..2be7ce9 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -14,13 +14,24 @@ namespace Srl {
 
         class Registrations {
 
-            typedef std::function<void*(void)> Make;
+            struct Maker {
+                void* (*make)    ();
+                void  (*destroy) (void* obj);
+                /* throws the pointer to the object with its type */
+                void  (*raise)   (void* obj);
+            };
+
+            template<class T> struct Make {
+                static void* Create  ()          { return Ctor<T>::Create_New().release(); }
+                static void  Destroy (void* obj) { delete (T*)obj; }
+                static void  Raise   (void* obj) { throw (T*)obj; }
+            };
 
         public:
             template<class T>
             void add(const String& id)
             {
-                bool exists = this->insert(id, [] { return Ctor<T>::Create_New().release(); });
+                bool exists = this->insert(id, { &Make<T>::Create, &Make<T>::Destroy, &Make<T>::Raise });
 
                 if(exists) {
                     throw Exception("Class id " + id.unwrap(false) + " duplicated.");
@@ -30,21 +41,51 @@ namespace Srl {
             template<class T>
             std::unique_ptr<T> create(const String& id)
             {
-                auto* make = this->find(id);
+                auto* maker = this->find(id);
 
-                if(!make) {
+                if(!maker) {
                     throw Exception("Class id " + id.unwrap(false) + " not registered.");
                 }
 
-                auto* ptr = (T*)((*make)());
+                /* the id comes from the source, it might belong to an unrelated class */
+                auto* obj = maker->make();
+                auto* ptr = this->cast<T>(*maker, obj);
+
+                if(!ptr) {
+                    maker->destroy(obj);
+                    throw Exception("Class id " + id.unwrap(false) + " belongs to an unrelated class.");
+                }
+
                 return std::unique_ptr<T>(ptr);
             }
 
+            /* obj points to the object as it has been created, null if it isn't a T */
+            template<class T>
+            T* cast(const String& id, void* obj)
+            {
+                auto* maker = this->find(id);
+                return maker ? this->cast<T>(*maker, obj) : nullptr;
+            }
+
         private:
-            HTable<String, Make> table { 16 };
+            HTable<String, Maker> table { 16 };
 
-            bool  insert (const String& id, Make&& make);
-            Make* find   (const String& id);
+            bool   insert (const String& id, const Maker& maker);
+            Maker* find   (const String& id);
+
+            template<class T>
+            T* cast(const Maker& maker, void* obj)
+            {
+                try {
+                    maker.raise(obj);
+
+                } catch(T* ptr) {
+                    return ptr;
+
+                } catch(...) { }
+
+                return nullptr;
+            }
         };
 
         Registrations* registrations();
diff --git a/src/lib/Registration.cpp b/src/lib/Registration.cpp
index d23a5f6..331a332 100644
--- a/src/lib/Registration.cpp
+++ b/src/lib/Registration.cpp
@@ -12,15 +12,15 @@ Registrations* Lib::registrations()
     return &regs;
 }
 
-bool Registrations::insert(const String& id, Registrations::Make&& make)
+bool Registrations::insert(const String& id, const Registrations::Maker& maker)
 {
     bool exists; void* v;
-    tie(exists, v) = this->table.insert(id, make);
+    tie(exists, v) = this->table.insert(id, maker);
 
     return exists;
 }
 
-Registrations::Make* Registrations::find (const String& id)
+Registrations::Maker* Registrations::find (const String& id)
 {
     return this->table.get(id);
 }
-- 
2.43.0


From ae313dd5d6dd6430c00462e15585998ea17e2db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 37/58] fix: a shared key of another type does not reinterpret
 the shared object

The keys come from the source. A reference to an object which had been
restored as a different type was cast to the type of the reference.
---
 include/Srl/Environment.h | 10 ++++++++-
 include/Srl/Node.h        |  2 +-
 include/Srl/Resolve.hpp   | 45 +++++++++++++++++++++++++++++++++------
 src/lib/Node.cpp          | 14 ++++--------
 4 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 4c96ce5..98d43db 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -64,6 +64,14 @@ namespace Lib {
         }
     };
 
+    struct SharedObject {
+        std::shared_ptr<void> ptr;
+        const std::type_info* type;
+        /* polymorphic types only: the object as it has been created and the id of its class */
+        void*                 object  = nullptr;
+        const char*           type_id = nullptr;
+    };
+
     struct Environment {
 
         static const String EmptyString;
@@ -76,7 +84,7 @@ namespace Lib {
         HTable<String, String> str_table;
 
         SharedStore                           shared_store;
-        HTable<size_t, std::shared_ptr<void>> shared_table_restore { 16 };
+        HTable<size_t, SharedObject>          shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
         std::vector<uint8_t>  type_buffer;
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index c12dc93..10f8c86 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -127,7 +127,7 @@ namespace Srl {
                          Type node_type, const String& name, const Args&... args);
 
         std::pair<bool, uint64_t> insert_shared (const std::shared_ptr<const void>& obj, const std::type_info& type);
-        std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::function<std::shared_ptr<void>(void)>& create);
+        const Lib::SharedObject& find_shared (uint64_t key, const std::function<Lib::SharedObject(void)>& create);
 
         Node& insert_node  (const Node& node, const String& name);
         Node& insert_node  (Type type, const String& name);
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 0304830..3a6067a 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -797,23 +797,54 @@ namespace Srl { namespace Lib {
         }
 
         template<class ID = String>
-        static void Paste(T& p, Node& node, const ID& = Aux::str_empty)
+        static void Paste(T& p, Node& node, const ID& id = Aux::str_empty)
         {
             uint64_t key = node.unwrap_field<uint64_t>(Aux::str_shared_key);
-            bool inserted_new; std::shared_ptr<void>* sptr;
 
-            std::tie(inserted_new, sptr) = node.find_shared(key, [&p, &node] {
+            auto& shared = node.find_shared(key, [&node] {
                 E* e = nullptr;
                 Apply(e, node);
-                p = std::shared_ptr<E>(e);
-                return p;
+                return Describe(std::shared_ptr<E>(e));
             });
 
-            if(!inserted_new) {
-                p = std::static_pointer_cast<E>(*sptr);
+            /* the key comes from the source, it might belong to an object of another type */
+            auto* e = *shared.type == typeid(E)
+                ? static_cast<E*>(shared.ptr.get())
+                : Cast<E>(shared);
+
+            if(!e && shared.ptr) {
+                Aux::throw_error("Shared object " + std::to_string(key) + " is of another type.", id);
             }
+
+            p = std::shared_ptr<E>(shared.ptr, e);
         }
 
+        template<class C>
+        static typename std::enable_if<is_polymorphic<C*>::value && std::is_polymorphic<C>::value, SharedObject>::type
+        Describe(const std::shared_ptr<C>& s)
+        {
+            return s ? SharedObject { s, &typeid(C), dynamic_cast<void*>(s.get()), s->srl_type_id().name() }
+                     : SharedObject { s, &typeid(C), nullptr, nullptr };
+        }
+
+        template<class C>
+        static typename std::enable_if<!is_polymorphic<C*>::value || !std::is_polymorphic<C>::value, SharedObject>::type
+        Describe(const std::shared_ptr<C>& s)
+        {
+            return SharedObject { s, &typeid(C), nullptr, nullptr };
+        }
+
+        template<class C>
+        static typename std::enable_if<is_polymorphic<C*>::value, C*>::type
+        Cast(const SharedObject& shared)
+        {
+            return shared.object ? Lib::registrations()->cast<C>(shared.type_id, shared.object) : nullptr;
+        }
+
+        template<class C>
+        static typename std::enable_if<!is_polymorphic<C*>::value, C*>::type
+        Cast(const SharedObject&) { return nullptr; }
+
         template<class C>
         static typename std::enable_if<is_polymorphic<C*>::value, void>::type
         Apply(C*& p, Node& node)
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 55a7b9f..8dfa6e7 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -550,18 +550,12 @@ pair<bool, uint64_t> Node::insert_shared (const shared_ptr<const void>& obj, con
     return { false, store.next_key++ };
 }
 
-pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const function<shared_ptr<void>(void)>& create)
+const SharedObject& Node::find_shared (uint64_t key, const function<SharedObject(void)>& create)
 {
-    auto& table = this->env->shared_table_restore;
-    auto* sptr = table.get(key);
-    bool inserted_new = false;
+    auto& table  = this->env->shared_table_restore;
+    auto* shared = table.get(key);
 
-    if(!sptr) {
-        sptr = table.insert(key, create()).second;
-        inserted_new = true;
-    }
-
-    return { inserted_new, sptr };
+    return shared ? *shared : *table.insert(key, create()).second;
 }
 
 void Node::foreach_node(const function<void(Node&)>& fnc, bool recursive)
-- 
2.43.0


From 853db04078cd200edfeea8c7885b1df24e4ad08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 38/58] fix: a JSON comment ends after its closing delimiter

The slash that closes a block comment was looked at as the start of the
next one, so that a comment (or a slash) right behind it was misread.
"/*/" was taken for a complete comment.
---
 src/lib/PJson.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index ae7cfec..0ab3581 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -125,7 +125,9 @@ namespace {
         }
 
         if(*(source.pointer() + 1) == '*') {
+            source.move(2, error);
             source.move_until(error, array<const char, 2> { { '*', '/' } });
+            source.move(1, error);
             return;
         }
 
-- 
2.43.0


From 89f08ebd61b94a3708b62c9045967632e5a8b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 39/58] fix: fields that follow a Union are not skipped

Unpacking (or restoring) a Union discarded the rest of the scope, so that
every field after it was reported as missing.
---
 include/Srl/Resolve.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 3a6067a..8227cce 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -267,7 +267,6 @@ namespace Srl { namespace Lib {
                 u = node.get(id);
             } else {
                 u = node.consume_item(id);
-                node.consume_scope();
             }
         }
     };
-- 
2.43.0


From 5d96d21e8d71d6e17efb4f3a1f5505ccc0b46594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 40/58] fix: null pointers to objects can be restored

A pointer to an object is stored as null when it does not point to
anything, but restoring expected a scope and reported the field as missing.
---
 include/Srl/Context.hpp |  2 +-
 include/Srl/Node.h      |  7 +++++--
 include/Srl/Node.hpp    |  9 ++++++++-
 include/Srl/Resolve.h   |  6 ++++++
 include/Srl/Resolve.hpp |  5 +++++
 src/lib/Node.cpp        | 20 ++++++++++++++++++--
 6 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/include/Srl/Context.hpp b/include/Srl/Context.hpp
index 9fc4acf..2fd3ba7 100644
--- a/include/Srl/Context.hpp
+++ b/include/Srl/Context.hpp
@@ -67,7 +67,7 @@ namespace Srl {
         if((flags & CtxFlags::Optional)) {
 
             bool has = TpTools::is_scope(type)
-                ? context_node->has_node(name)
+                ? context_node->has_node(name) || (Lib::is_nullable<T>::value && context_node->has_value(name))
                 : context_node->has_value(name);
 
             if(!has) {
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 10f8c86..000cce7 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -126,6 +126,9 @@ namespace Srl {
         void open_scope (void (*Insert)(Node& node, const Args&... args),
                          Type node_type, const String& name, const Args&... args);
 
+        bool has_null (const String& name);
+        bool has_null (size_t) { return false; }
+
         std::pair<bool, uint64_t> insert_shared (const std::shared_ptr<const void>& obj, const std::type_info& type);
         const Lib::SharedObject& find_shared (uint64_t key, const std::function<Lib::SharedObject(void)>& create);
 
@@ -137,10 +140,10 @@ namespace Srl {
         void  read_source (int scope_depth = 0);
 
         void  consume_scope ();
-        Node  consume_node  (bool throw_ex, const String& name);
+        Node  consume_node  (bool throw_ex, const String& name, bool nullable = false);
         Value consume_value (bool throw_ex, const String& name);
 
-        Node  consume_node  (bool throw_ex, size_t idx);
+        Node  consume_node  (bool throw_ex, size_t idx, bool nullable = false);
         Value consume_value (bool throw_ex, size_t idx);
 
         Union consume_item(const String& name, bool throw_err = true);
diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index 9dbe0a0..f0fa98a 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -106,11 +106,18 @@ namespace Srl {
     typename std::enable_if<!std::is_same<T, Srl::Union>::value && TpTools::is_scope(Lib::Switch<T>::type), void>::type
     Node::paste_field (const ID& fieldID, T& o)
     {
+        const bool nullable = Lib::is_nullable<T>::value;
+
         if(this->parsed) {
+            if(nullable && this->has_null(fieldID)) {
+                Node null(this->env->tree, Type::Null);
+                Lib::Switch<T>::Paste(o, null, fieldID);
+                return;
+            }
             Lib::Switch<T>::Paste(o, this->node(fieldID), fieldID);
 
         } else {
-            auto itm = this->consume_node(true, fieldID);
+            auto itm = this->consume_node(true, fieldID, nullable);
             Lib::Switch<T>::Paste(o, itm, fieldID);
             itm.consume_scope();
         }
diff --git a/include/Srl/Resolve.h b/include/Srl/Resolve.h
index 8ea8896..7923d98 100644
--- a/include/Srl/Resolve.h
+++ b/include/Srl/Resolve.h
@@ -134,6 +134,12 @@ namespace Lib {
         static const bool value = true;
     };
 
+    /* pointers which are stored as null if they don't point to anything */
+    template<class T> struct is_nullable {
+        static const bool value = is_unique_ptr<T>::value || is_weak_ptr<T>::value ||
+                                  is_shared_ptr<T>::value || std::is_pointer<T>::value;
+    };
+
     template<class T> struct is_basic_string {
         static const bool value = false;
     };
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 8227cce..f6d9d1b 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -798,6 +798,11 @@ namespace Srl { namespace Lib {
         template<class ID = String>
         static void Paste(T& p, Node& node, const ID& id = Aux::str_empty)
         {
+            if(node.type() == Type::Null) {
+                p = T();
+                return;
+            }
+
             uint64_t key = node.unwrap_field<uint64_t>(Aux::str_shared_key);
 
             auto& shared = node.find_shared(key, [&node] {
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 8dfa6e7..abdd9e8 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -326,7 +326,7 @@ Union Node::consume_item(const String& id, bool throw_err)
     return Union();
 }
 
-Node Node::consume_node(bool throw_ex, const String& id)
+Node Node::consume_node(bool throw_ex, const String& id, bool nullable)
 {
     auto stored_itr = find_link_iterator(id, this->nodes, *this->env);
 
@@ -336,6 +336,10 @@ Node Node::consume_node(bool throw_ex, const String& id)
         return stored_field;
     }
 
+    if(nullable && this->has_null(id)) {
+        return Node(this->env->tree, Type::Null);
+    }
+
     auto id_conv = this->env->conv_string(id);
 
     while(!this->parsed) {
@@ -359,6 +363,10 @@ Node Node::consume_node(bool throw_ex, const String& id)
             link->field.read_source();
 
         } else {
+            if(nullable && tp == Type::Null && compare(id_conv, seg_name)) {
+                return Node(this->env->tree, Type::Null);
+            }
+
             this->env->store_value(*this, val, seg_name);
         }
     }
@@ -415,7 +423,7 @@ Value Node::consume_value(bool throw_ex, const String& id)
 }
 
 
-Node Node::consume_node(bool throw_ex, size_t)
+Node Node::consume_node(bool throw_ex, size_t, bool)
 {
     if(this->nodes.size() > 0) {
         auto itr = this->nodes.begin();
@@ -661,6 +669,14 @@ void Node::remove_value(Value* to_remove)
     find_link<Remove | Address>(to_remove, this->values);
 }
 
+bool Node::has_null(const String& field_name)
+{
+    auto itr = find_link_iterator(field_name, this->values, *this->env);
+
+    return itr != this->values.end() && itr->field.type() == Type::Null &&
+           find_link_iterator(field_name, this->nodes, *this->env) == this->nodes.end();
+}
+
 bool Node::has_node(const String& field_name)
 {
     if(this->parsed) {
-- 
2.43.0


From de403e9e15433dd68441c1e4a9b486ecbe277b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 41/58] fix: a VecWrap does not overflow if the data ends
 within an element

The vector was resized to the number of complete elements, but all bytes of
the restored block were copied into it.
---
 include/Srl/BitWrap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Srl/BitWrap.h b/include/Srl/BitWrap.h
index dc0b176..f40bae5 100644
--- a/include/Srl/BitWrap.h
+++ b/include/Srl/BitWrap.h
@@ -40,8 +40,12 @@ namespace Srl {
         VecWrap(std::vector<T>& vec_)
             : vec(&vec_), bitwrap(
                 (uint8_t*)vec->data(), vec->size() * sizeof(T),
-                [this](size_t sz)
+                [this](size_t sz) -> uint8_t*
                 {
+                    /* the source decides the size, it might not fit the elements */
+                    if(sz % sizeof(T) != 0) {
+                        return nullptr;
+                    }
                     vec->resize(sz / sizeof(T));
                     bitwrap.data = { (uint8_t*)vec->data(), sz };
                     return (uint8_t*)vec->data();
-- 
2.43.0


From e054486f0556e59052530ed7558163c60e5ffe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 42/58] fix: a shared polymorphic object is not leaked if its
 scope cannot be read to the end

---
 include/Srl/Resolve.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index f6d9d1b..35c4cf7 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -806,9 +806,9 @@ namespace Srl { namespace Lib {
             uint64_t key = node.unwrap_field<uint64_t>(Aux::str_shared_key);
 
             auto& shared = node.find_shared(key, [&node] {
-                E* e = nullptr;
+                std::unique_ptr<E> e;
                 Apply(e, node);
-                return Describe(std::shared_ptr<E>(e));
+                return Describe(std::shared_ptr<E>(std::move(e)));
             });
 
             /* the key comes from the source, it might belong to an object of another type */
@@ -851,18 +851,17 @@ namespace Srl { namespace Lib {
 
         template<class C>
         static typename std::enable_if<is_polymorphic<C*>::value, void>::type
-        Apply(C*& p, Node& node)
+        Apply(std::unique_ptr<C>& p, Node& node)
         {
             node.paste_field(Aux::str_shared_value, p);
         }
 
         template<class C>
         static typename std::enable_if<!is_polymorphic<C*>::value, void>::type
-        Apply(C*& p, Node& node)
+        Apply(std::unique_ptr<C>& p, Node& node)
         {
-            auto uptr = Ctor<C>::Create_New();
-            node.paste_field(Aux::str_shared_value, *uptr.get());
-            p = uptr.release();
+            p = Ctor<C>::Create_New();
+            node.paste_field(Aux::str_shared_value, *p);
         }
     };
 
-- 
2.43.0


From dd0c00f67c2e2a090a2f9f15e648b0f1d3f3a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 43/58] fix: releasing memory of the heap does not throw

Erasing an item of a tree puts its memory back into the heap, which might
have to allocate a link. Thrown from within a noexcept function bad_alloc
terminated the process. Do without reusing the memory instead.
---
 src/lib/Heap.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index 9ffe797..7b18e01 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -153,8 +153,16 @@ Aux::SList<T>::find_rm(const Predicate& pred)
 
 void Heap::put_mem(uint8_t* mem, size_t sz)
 {
+    SegLink* link = nullptr;
+
+    try {
+        link = this->chain.get_link();
+
+    } catch(const bad_alloc&) {
+        /* must not fail when releasing memory. It is not reused until the heap gets cleared */
+        return;
+    }
 
-    auto* link = this->chain.get_link();
     set_subsegment(link->val, mem, sz);
 
     this->chain.free_segs.append(link);
-- 
2.43.0


From e12a834b60478b0690fc40a114e423a5964d0c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 44/58] fix: a loaded plain value determines the type of the
 root, too

Tree::load_object() still kept an array as root if the object is a plain
value. It was saved in another way than by a fresh tree.
---
 include/Srl/Tree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index 3b89e80..d09190c 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -163,10 +163,8 @@ namespace Srl {
     void Tree::load_object(const T& type)
     {
         this->clear();
+        this->root().scope_type = Lib::Aux::TypeSwitch<T>::type;
 
-        if(TpTools::is_scope(Lib::Switch<T>::type)) {
-            this->root().scope_type = Lib::Aux::TypeSwitch<T>::type;
-        }
         Lib::Aux::TypeSwitch<T>::Insert(type, *this);
     }
 }
-- 
2.43.0


From 12bdcaf37e43984343d163a7bc5693f888ce5e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 45/58] fix: updating a hash table entry keeps the old value if
 moving the new one throws

HTable::upsert() destroyed the old value before the new one was in place.
If the constructor of a type that cannot be moved, or its move constructor,
threw, the entry was left with a destroyed value.
---
 include/Srl/Hash.h   | 10 +++----
 include/Srl/Hash.hpp | 62 ++++++++++++++++++++++++++------------------
 2 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/include/Srl/Hash.h b/include/Srl/Hash.h
index 56d90f3..e67059b 100644
--- a/include/Srl/Hash.h
+++ b/include/Srl/Hash.h
@@ -126,13 +126,11 @@ namespace Srl { namespace Lib {
 
         void recycle(Entry* entry) noexcept;
 
-        template<class T, class... Args>
-        typename std::enable_if<std::is_move_constructible<T>::value, void>::type
-        replace(T& val, Args&&... args);
+        template<class KV, class... Args>
+        Entry* create_entry (uint64_t hash, KV&& key, Args&&... args);
 
-        template<class T, class... Args>
-        typename std::enable_if<!std::is_move_constructible<T>::value, void>::type
-        replace(T& val, Args&&... args);
+        template<class KV, class... Args>
+        void replace (Entry*& entry, KV&& key, Args&&... args);
 
         template<class KV, class... Args>
         std::pair<bool, Val*> insert_hash (uint64_t hash, bool update_on_dup, KV&& key, Args&&... args);
diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index 280c37d..72f2d80 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -181,7 +181,9 @@ namespace Srl { namespace Lib {
             if(entry->hash == hash && entry->key == key) {
 
                 if(update_on_dup) {
-                    this->replace(entry->val, std::forward<Args>(args)...);
+                    auto** link = prev ? &prev->next : &table[bucket];
+                    this->replace(*link, std::forward<KV>(key), std::forward<Args>(args)...);
+                    entry = *link;
                 }
 
                 return { true, &entry->val };
@@ -191,6 +193,22 @@ namespace Srl { namespace Lib {
             entry = entry->next;
         }
 
+        auto* new_entry = this->create_entry(hash, std::forward<KV>(key), std::forward<Args>(args)...);
+
+        if(prev) {
+            prev->next = new_entry;
+        } else {
+            table[bucket] = new_entry;
+        }
+
+        this->elements++;
+
+        return { false, &(new_entry->val) };
+    }
+
+    template<class K, class V, class H> template<class KV, class... Args>
+    typename HTable<K, V, H>::Entry* HTable<K, V, H>::create_entry(uint64_t hash, KV&& key, Args&&... args)
+    {
         Entry* mem = nullptr;
 
         if(this->mem_cache.size() > 0) {
@@ -201,37 +219,31 @@ namespace Srl { namespace Lib {
             mem = this->heap.template get_mem<Entry>(1);
         }
 
-        auto* new_entry = new (mem) Entry (
+        return new (mem) Entry (
             hash, std::forward<KV>(key), std::forward<Args>(args)...
         );
-
-        if(prev) {
-            prev->next = new_entry;
-        } else {
-            table[bucket] = new_entry;
-        }
-
-        this->elements++;
-
-        return { false, &(new_entry->val) };
     }
 
     /* the old value is kept if the new one cannot be constructed, and may be one of the arguments */
-    template<class K, class V, class H> template<class T, class... Args>
-    typename std::enable_if<std::is_move_constructible<T>::value, void>::type
-    HTable<K, V, H>::replace(T& val, Args&&... args)
+    template<class K, class V, class H> template<class KV, class... Args>
+    void HTable<K, V, H>::replace(Entry*& entry, KV&& key, Args&&... args)
     {
-        T tmp(std::forward<Args>(args)...);
-        this->destroy_item(val);
-        new (&val) T(std::move(tmp));
-    }
+        if constexpr(std::is_nothrow_move_constructible<V>::value) {
 
-    template<class K, class V, class H> template<class T, class... Args>
-    typename std::enable_if<!std::is_move_constructible<T>::value, void>::type
-    HTable<K, V, H>::replace(T& val, Args&&... args)
-    {
-        this->destroy_item(val);
-        new (&val) T(std::forward<Args>(args)...);
+            V tmp(std::forward<Args>(args)...);
+            this->destroy_item(entry->val);
+            new (&entry->val) V(std::move(tmp));
+
+        } else {
+            auto* old = entry;
+            auto* new_entry = this->create_entry(old->hash, std::forward<KV>(key), std::forward<Args>(args)...);
+
+            new_entry->next = old->next;
+            entry = new_entry;
+
+            this->destroy_item<Entry>(*old);
+            this->recycle(old);
+        }
     }
 
     template<class K, class V, class H>
-- 
2.43.0


From 367afe76a2a08cf21f2c862d8698eda6ab27988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 46/58] fix: a failing extract leaves the entry in the hash
 table

HTable::extract() moved the value out before it looked for the entry again.
If the hash function or a comparison of keys threw then, the entry stayed
with a value that was moved from.
---
 include/Srl/Hash.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index 72f2d80..4e51477 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -385,14 +385,29 @@ namespace Srl { namespace Lib {
     template<class K, class V, class H>
     std::optional<V> HTable<K, V, H>::extract(const K& key)
     {
-        auto* val = this->get(key);
+        auto hash   = hash_fnc(key);
+        auto* entry = get_rm(key, hash);
 
-        if(!val) {
+        if(!entry) {
             return { };
         }
 
-        std::optional<V> res(std::move(*val));
-        this->remove(key);
+        std::optional<V> res;
+
+        try {
+            res.emplace(std::move(entry->val));
+
+        } catch(...) {
+            auto bucket = get_bucket(hash);
+
+            entry->next   = table[bucket];
+            table[bucket] = entry;
+            throw;
+        }
+
+        destroy_item<Entry>(*entry);
+        this->recycle(entry);
+        elements--;
 
         return res;
     }
-- 
2.43.0


From 882ffbf0b787fa543aa2551ab38c725c56f7fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 47/58] fix: names which cannot be converted are equal to no
 other name

A failed conversion compared whatever had been converted so far, so a
lookup or removal could find an item with another name. It is reported
as an error now, like everywhere else.
---
 include/Srl/String.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/String.hpp b/include/Srl/String.hpp
index 172dceb..18643b3 100644
--- a/include/Srl/String.hpp
+++ b/include/Srl/String.hpp
@@ -28,7 +28,7 @@ namespace Srl {
             return cmp(a.block.data(), a.block.size);
 
         } else {
-            auto tmp = Tools::conv_charset(this->block.encoding, a, false);
+            auto tmp = Tools::conv_charset(this->block.encoding, a);
             return cmp(tmp.data(), tmp.size());
         }
     }
-- 
2.43.0


From 5f75017fff4b25181f96b4ffcfe3643cb9753f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 48/58] fix: restoring an array directly from a source checks
 the number of elements

---
 include/Srl/Resolve.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 35c4cf7..cec7d13 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -608,6 +608,12 @@ namespace Srl { namespace Lib {
                     count++;
                 }
 
+                if(!node.parsed) {
+                    node.consume_item<E>();
+                    /* there is one element too many if the end of the scope has not been reached */
+                    count += !node.parsed;
+                }
+
                 Aux::check_size(len, count, id);
             }
         }
-- 
2.43.0


From 790d87f3493d9df9a2bce5fa31cc163ee1d2e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 49/58] fix: read strings in their own encoding from unaligned
 memory

The data of a string (of an item in a tree, for instance) starts anywhere.
Wide characters were read there through pointers to the character type.
---
 include/Srl/Tools.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Tools.hpp b/include/Srl/Tools.hpp
index 55e2ed7..4ac7643 100644
--- a/include/Srl/Tools.hpp
+++ b/include/Srl/Tools.hpp
@@ -15,10 +15,12 @@ namespace Srl { namespace Tools {
         auto target_encoding = Lib::get_encoding<TChar>();
 
         if(str_wrap.encoding() == target_encoding) {
-            return std::basic_string<TChar>(
-                reinterpret_cast<const TChar*>(str_wrap.data()),
-                str_wrap.size() / sizeof(TChar)
-            );
+            /* the data is not necessarily aligned */
+            std::basic_string<TChar> str(str_wrap.size() / sizeof(TChar), TChar());
+            if(str.size() > 0) {
+                memcpy(&str[0], str_wrap.data(), str.size() * sizeof(TChar));
+            }
+            return str;
         }
 
         std::vector<uint8_t> converted = conv_charset(target_encoding, str_wrap, throw_error);
-- 
2.43.0


From 69213a145f2d35eb5faad29d8d95ee33fe78d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 50/58] fix: keep sizes beyond 4 GiB

The sizes of strings, binary data and heap segments were cut to 32 bits:
larger data was stored short without an error.
---
 include/Srl/Blocks.h | 4 ++--
 include/Srl/Heap.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Blocks.h b/include/Srl/Blocks.h
index 436c60d..105081f 100644
--- a/include/Srl/Blocks.h
+++ b/include/Srl/Blocks.h
@@ -24,7 +24,7 @@ namespace Srl { namespace Lib {
 
         struct PackedBlock {
 
-            PackedBlock(uint32_t sz, Type type_, Encoding encoding_)
+            PackedBlock(size_t sz, Type type_, Encoding encoding_)
                 : ui64(0), size(sz), type(type_), encoding(encoding_) { }
 
             PackedBlock(const Lib::MemBlock& block, Type type_, Encoding encoding_)
@@ -39,7 +39,7 @@ namespace Srl { namespace Lib {
                 uint64_t       ui64;
             };
 
-            uint32_t size;
+            size_t   size;
             Type     type;
             Encoding encoding;
             bool     stored_local = false;
diff --git a/include/Srl/Heap.h b/include/Srl/Heap.h
index ab1f663..46c7b96 100644
--- a/include/Srl/Heap.h
+++ b/include/Srl/Heap.h
@@ -61,8 +61,8 @@ namespace Srl { namespace Lib {
             ~Segment();
 
             uint8_t* data    = nullptr;
-            uint32_t left    = 0;
-            uint32_t size    = 0;
+            size_t   left    = 0;
+            size_t   size    = 0;
             bool     sub_seg = false;
 
             void     dec (size_t n) { assert(this->left >= n); this->left -= n; }
-- 
2.43.0


From 3e7f79f6f85806df98f4471d0d41aabaa55fea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 51/58] fix: refuse what exceeds the sizes of MessagePack

The size was cut to 32 bits, the document was malformed.
---
 src/lib/PMsgPack.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index c7a7eea..e372cac 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -125,6 +125,14 @@ namespace {
         out.write_byte(0xC0);
     }
 
+    uint32_t check_size(size_t size)
+    {
+        if(size > 0xFFFFFFFF) {
+            throw Exception("Unable to write MsgPack. Size of data exceeds the limit of the format.");
+        }
+        return size;
+    }
+
     /* bin  8 11000100 0xc4
        bin 16 11000101 0xc5
        bin 32 11000110 0xc6 */
@@ -140,7 +148,7 @@ namespace {
             out.write(swap_bytes(sz));
 
         } else {
-            uint32_t sz = block.size;
+            uint32_t sz = check_size(block.size);
             out.write_byte(0xC6);
             out.write(swap_bytes(sz));
         }
@@ -167,7 +175,7 @@ namespace {
             out.write(swap_bytes(sz));
 
         } else {
-            uint32_t sz = block.size;
+            uint32_t sz = check_size(block.size);
             out.write_byte(0xDB);
             out.write(swap_bytes(sz));
         }
-- 
2.43.0


From ff6540ddd364859b1ae0279d1b613b6ba016a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 52/58] fix: negate the smallest integer without overflow

The most negative 64 bit integer has no positive counterpart: negating
it as a signed number is undefined. Its magnitude is built in unsigned
arithmetic instead, when writing, when reading and when converting to
text.
---
 src/lib/PSrl.cpp         | 4 ++--
 src/lib/ToolsStrConv.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index ab9eb93..664fd9c 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -205,7 +205,7 @@ void PSrl::write(const Value& value, const MemBlock& name, Out& out)
     } else if(TpTools::is_integral(type)) {
 
         uint64_t integer = TpTools::is_signed(type) && value.pblock().i64 < 0
-            ? -value.pblock().i64
+            ? 0 - value.pblock().ui64
             : value.pblock().ui64;
 
         encode_integer(integer, out);
@@ -282,7 +282,7 @@ pair<Lib::MemBlock, Value> PSrl::read_num(Flag flag, const MemBlock& name, In& s
     uint64_t integer = decode_integer(source);
 
     return flag & FSigned
-        ? make_pair(name, Value(-(int64_t)integer))
+        ? make_pair(name, Value((int64_t)(0 - integer)))
         : make_pair(name, Value(integer));
 }
 
diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 680225d..7cbce03 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -98,7 +98,7 @@ namespace {
 
         bool negative = TpTools::is_signed(TP) && value.pblock().i64 < 0;
 
-        uint64_t val = negative ? -value.pblock().i64 : value.pblock().ui64;
+        uint64_t val = negative ? 0 - value.pblock().ui64 : value.pblock().ui64;
 
         if(val == 0) {
             if(out.size() < 1) out.resize(1);
-- 
2.43.0


From 29136ec691988c1c7639eb0f52685531c9a3a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:03 +0000
Subject: [PATCH 53/58] fix: count output in full size

Positions in documents and texts of more than 4 GiB wrapped around.
---
 include/Srl/Out.hpp | 2 +-
 src/lib/Out.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index 097645f..9347e80 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -96,7 +96,7 @@ namespace Srl { namespace Lib {
     template<class... Tokens>
     void Out::write_substitute(const Lib::MemBlock& data, const Tokens&... tokens)
     {
-        for(auto i = 0U; i < data.size; i++) {
+        for(size_t i = 0; i < data.size; i++) {
             this->substitute_token(*(data.ptr + i), tokens...);
         }
     }
diff --git a/src/lib/Out.cpp b/src/lib/Out.cpp
index 39ae254..65e918a 100644
--- a/src/lib/Out.cpp
+++ b/src/lib/Out.cpp
@@ -53,7 +53,7 @@ void Out::write_to_buffer()
 
     this->buffer->resize(this->state.sz_total);
 
-    auto pos = 0U;
+    size_t pos = 0;
     auto* seg = this->heap.chain.used_segs.front;
 
     while(seg) {
-- 
2.43.0


From 58281ef103df76684aa683e071464a0781925454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 54/58] fix: the heap does not keep a link for every failed
 allocation

A link was created for a segment whose memory could then not be allocated.
It held no memory which could be reused, so it stayed behind for good.
---
 src/lib/Heap.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index 7b18e01..2322674 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -1,4 +1,5 @@
 #include "Srl/Heap.h"
+#include <memory>
 
 using namespace std;
 using namespace Srl;
@@ -18,9 +19,9 @@ namespace {
         seg.sub_seg = true;
     }
 
-    void set_segment(Heap::Segment& seg, size_t sz)
+    void set_segment(Heap::Segment& seg, uint8_t* data, size_t sz)
     {
-        seg.data = new uint8_t[sz];
+        seg.data = data;
         seg.left = sz;
         seg.size = sz;
         seg.sub_seg = false;
@@ -215,9 +216,12 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
 
     auto alloc_sz = this->cap > n ? this->cap : n;
 
+    /* comes first, a link without memory would be of no further use */
+    auto mem = unique_ptr<uint8_t[]>(new uint8_t[alloc_sz]);
+
     auto* link = this->chain.get_link();
     seg = &link->val;
-    set_segment(*seg, alloc_sz);
+    set_segment(*seg, mem.release(), alloc_sz);
 
     this->chain.used_segs.append(link);
 
-- 
2.43.0


From 73f15f47fd09533fdc5664fb1d36e943a6d41bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 55/58] fix: a failed insertion does not lose the memory of a
 hash table entry

If the constructor of the key or value threw, the memory was neither used
nor put back to be used by the next entry.
---
 include/Srl/Hash.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index 4e51477..5071fb7 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -219,9 +219,15 @@ namespace Srl { namespace Lib {
             mem = this->heap.template get_mem<Entry>(1);
         }
 
-        return new (mem) Entry (
-            hash, std::forward<KV>(key), std::forward<Args>(args)...
-        );
+        try {
+            return new (mem) Entry (
+                hash, std::forward<KV>(key), std::forward<Args>(args)...
+            );
+
+        } catch(...) {
+            this->recycle(mem);
+            throw;
+        }
     }
 
     /* the old value is kept if the new one cannot be constructed, and may be one of the arguments */
-- 
2.43.0


From 4907deb3ef5a5e078b27f89d75c56b0ef9248100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:28 +0000
Subject: [PATCH 56/58] fix: members found by their place are restored after an
 absent optional field

---
 include/Srl/Node.h   | 4 +++-
 include/Srl/Node.hpp | 4 ++--
 src/lib/Tree.cpp     | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 000cce7..00cb9bd 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -111,7 +111,7 @@ namespace Srl {
     private:
         Node(Tree* tree, Type type_ = Type::Object, bool parsed_ = true)
             : env(&tree->get_env()), nodes(env->heap), values(env->heap),
-              scope_type(type_), parsed(parsed_) { }
+              scope_type(type_), parsed(parsed_), consumed(!parsed_) { }
 
         Lib::Environment* env;
         Lib::Items<Node>  nodes;
@@ -121,6 +121,8 @@ namespace Srl {
 
         Type          scope_type;
         bool          parsed;
+        /* items are taken out one by one, also those left when the source has ended */
+        bool          consumed;
 
         template<class... Args>
         void open_scope (void (*Insert)(Node& node, const Args&... args),
diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index f0fa98a..055c867 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -108,7 +108,7 @@ namespace Srl {
     {
         const bool nullable = Lib::is_nullable<T>::value;
 
-        if(this->parsed) {
+        if(!this->consumed) {
             if(nullable && this->has_null(fieldID)) {
                 Node null(this->env->tree, Type::Null);
                 Lib::Switch<T>::Paste(o, null, fieldID);
@@ -127,7 +127,7 @@ namespace Srl {
     typename std::enable_if<!std::is_same<T, Srl::Union>::value && !TpTools::is_scope(Lib::Switch<T>::type), void>::type
     Node::paste_field (const ID& fieldID, T& o)
     {
-        if(this->parsed) {
+        if(!this->consumed) {
             Lib::Switch<T>::Paste(o, this->value(fieldID), fieldID);
 
         } else {
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 3476290..deff190 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -86,12 +86,14 @@ void Tree::read_source(Parser& parser, In::Source source, const function<void()>
 
 Tree::Consuming::Consuming(Tree& tree_) : tree(tree_)
 {
-    this->tree.root_node->parsed = false;
+    this->tree.root_node->parsed   = false;
+    this->tree.root_node->consumed = true;
 }
 
 Tree::Consuming::~Consuming()
 {
-    this->tree.root_node->parsed = true;
+    this->tree.root_node->parsed   = true;
+    this->tree.root_node->consumed = false;
 }
 
 Node& Tree::root()
-- 
2.43.0


From 2ad79911cd6ab0674438ab12694ab93c937c3506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:06 +0000
Subject: [PATCH 57/58] fix: a lookup that fails for lack of memory does not
 report that nothing is there

---
 include/Srl/Union.hpp |  4 ++--
 src/lib/Node.cpp      | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/Srl/Union.hpp b/include/Srl/Union.hpp
index 419a28e..d1f8603 100644
--- a/include/Srl/Union.hpp
+++ b/include/Srl/Union.hpp
@@ -164,7 +164,7 @@ namespace Srl {
                 T res = this->valptr->unwrap<T>();
                 return { std::move(res) };
 
-            } catch(...) { }
+            } catch(const Srl::Exception&) { }
         }
 
         return { };
@@ -180,7 +180,7 @@ namespace Srl {
                 T res = this->nodeptr->unwrap<T>();
                 return { std::move(res) };
 
-            } catch(...) { }
+            } catch(const Srl::Exception&) { }
         }
 
         return { };
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index abdd9e8..8b258e6 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -197,13 +197,21 @@ Node& Node::node(size_t index)
 
 optional<Union> Node::try_get(const String& name_)
 {
-    try {
-        auto res = this->get(name_);
+    auto* resvalue = find_link<Name>(name_, this->values);
+
+    if(resvalue) {
+        auto res = Union(resvalue->field);
         return { res };
+    }
 
-    } catch(...) {
-        return { };
+    auto* resnode = find_link<Name>(name_, this->nodes);
+
+    if(resnode) {
+        auto res = Union(resnode->field);
+        return { res };
     }
+
+    return { };
 }
 
 optional<Union> Node::try_get(size_t index)
-- 
2.43.0


From 7c077f0a9eba02e76e2ec2ffda24fd1efee57bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 58/58] fix: storing a node as part of an object keeps no
 memory for it

---
 include/Srl/Environment.h | 3 +++
 src/lib/Environment.cpp   | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 98d43db..a2ed3da 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -94,6 +94,9 @@ namespace Lib {
         Lib::In   in;
         Lib::Out  out;
 
+        /* stands for every node which has been written to the output instead of being stored */
+        Link<Node>* written_node = nullptr;
+
         template<class T>
         Link<T>*     create_link(Lib::Items<T>& lst, const T& val, const String& name);
         Link<Node>*  create_node (Type type, const String& name);
diff --git a/src/lib/Environment.cpp b/src/lib/Environment.cpp
index 96243eb..c61f69e 100644
--- a/src/lib/Environment.cpp
+++ b/src/lib/Environment.cpp
@@ -101,7 +101,13 @@ Link<Node>* Environment::store_node(Node& parent, const Node& node, const String
         Value scope_end = Value(Type::Scope_End);
         this->write(scope_end, name);
 
-        return create_node(node.scope_type, name);
+        /* nothing is kept of what has been written */
+        if(!this->written_node) {
+            this->written_node = this->create_node(node.scope_type, EmptyString);
+        }
+        this->written_node->field.scope_type = node.scope_type;
+
+        return this->written_node;
     }
 
     if(node.env != this) {
@@ -219,6 +225,7 @@ Value Environment::conv_type(const Value& value)
 
 void Environment::clear()
 {
+    this->written_node = nullptr;
     this->heap.clear();
     this->str_table.clear();
     this->shared_store.clear();
-- 
2.43.0

