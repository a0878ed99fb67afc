From 899cd2eb4bef747c9545849c3bbbfd2ebc65d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 01/33] fix: .num_gprs rejected every integer and read a
 non-integer token as its value

---
 src/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index 63805a6..7208d9f 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -42,7 +42,7 @@ void context::parse_option(token& token)
         parse_type();
     } else if (equal(token, ".num_gprs")) {
         token = tokenize();
-        if (token.type == token_type::immediate) {
+        if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
         num_gprs = static_cast<int>(token.data.immediate);
-- 
2.43.0


From b93941598d152a8a64356a72aaa32678c57923d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 02/33] fix: terminate the modifier tables that were searched
 past their end

---
 src/operand.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index ecc6dda..f560b20 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -686,7 +686,7 @@ namespace stg
     DEFINE_OPERAND(size)
     {
         static const char* table[] = {
-            "U8", "S8", "U16", "S16", "32", "64", "128",
+            "U8", "S8", "U16", "S16", "32", "64", "128", nullptr,
         };
         std::optional<uint64_t> size = find_in_table(token, table, ".");
         if (size) {
@@ -1207,7 +1207,7 @@ namespace ldg
 {
     DEFINE_OPERAND(size)
     {
-        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U"};
+        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U", nullptr};
         static const char* msg = "expected .U8, .S8, .U16, .S16, .32, .64, .128 or .U.128";
 
         const std::optional result = find_in_table(token, table, ".");
@@ -1496,7 +1496,7 @@ template <int address>
 DEFINE_OPERAND(tex_type)
 {
     static const char* types[]{
-        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE",
+        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE", nullptr,
     };
     const std::optional<uint64_t> result = find_in_table(token, types, "");
     if (!result) {
-- 
2.43.0


From c2a3d595a3b28b14dd879a5a151cbe71073968cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 03/33] fix: IADD3 accepted the 21-bit immediate 0x100000 and
 wrote it outside its field

---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index f560b20..640182e 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -89,7 +89,7 @@ inline error assemble_uint(context& ctx, opcode& op, token& token, int64_t max_s
 DEFINE_OPERAND(uimm_extended)
 {
     uint64_t value;
-    CHECK(convert_integer(token, 0, 1ULL << 20, &value));
+    CHECK(convert_integer(token, 0, max_bits(20), &value));
     if (value >= 0x80000) {
         value -= 0x80000;
         op.add_bits(1ULL << 56);
-- 
2.43.0


From e98d333e6947aaf696c805c168291c6bcc4bdcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 04/33] fix: SUST.D.BA wrote bit 52 twice and aborted, .BA is
 bit 23 as in SULD

---
 src/table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index cb6eff2..cbd5e37 100644
--- a/src/table.h
+++ b/src/table.h
@@ -254,8 +254,8 @@ const insn table[]{
     INSN(0x3890000000000000ULL, 0, "RRO", rro::mode, dgpr<0>, comma, fimm, post_neg<45>, post_abs<49>),
     INSN(0xEB20000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
     INSN(0xEB28000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
-    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
-    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
+    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
+    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
     INSN(0xEB08000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
-- 
2.43.0


From 663d5d70c29470cc2f3e6bf2ce2ff89bf2f4d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 05/33] fix: ICMP with a constant buffer as second source was
 encoded as the third-source form

---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index cbd5e37..de18855 100644
--- a/src/table.h
+++ b/src/table.h
@@ -179,7 +179,7 @@ const insn table[]{
     INSN(0x38C0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma,          uimm_extended, post_neg<50>, comma, neg<49>, sgpr<39>),
     INSN(0x5B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<20>, comma, sgpr<39>),
     INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<39>, comma, cbuf),
-    INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
+    INSN(0x4B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
     INSN(0x3640000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, imm,      comma, sgpr<39>),
     INSN(0x5C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
-- 
2.43.0


From 17c1a75f7ab724b23858eb4cbb4edf03c9f9d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 06/33] fix: TLDS.LL with 3D or ARRAY_2D was silently encoded
 as LZ

---
 src/operand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 640182e..98b6db0 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1622,6 +1622,9 @@ DEFINE_OPERAND(tlds_type)
         if (ms) {
             return fail(token, "MS can't be used in 3D");
         }
+        if (ll) {
+            return fail(token, "LL can't be used in 3D");
+        }
         mode = 7;
         break;
     case 3: // ARRAY_2D
@@ -1631,6 +1634,9 @@ DEFINE_OPERAND(tlds_type)
         if (ms) {
             return fail(token, "MS can't be used in ARRAY_2D");
         }
+        if (ll) {
+            return fail(token, "LL can't be used in ARRAY_2D");
+        }
         mode = 8;
         break;
     }
-- 
2.43.0


From 447479095741a695250b5d83401b3e4dffb915fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 07/33] fix: a DKSH whose code is already 256-byte aligned got
 256 extra bytes

---
 src/write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.cpp b/src/write.cpp
index aaeedb6..19612c3 100644
--- a/src/write.cpp
+++ b/src/write.cpp
@@ -22,7 +22,7 @@ std::vector<uint64_t> context::binary(std::span<const uint64_t> code) const
     }
     result.insert(result.end(), code.begin(), code.end());
     if (is_dksh) {
-        result.resize(result.size() + 32 - code.size() % 32);
+        result.resize(result.size() + (32 - code.size() % 32) % 32);
     }
     return result;
 }
-- 
2.43.0


From 9da3ed3529400d2b5857289d04fa0acecac5f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 08/33] fix: integers that are not representable as float were
 silently rounded

---
 src/helper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index ebb0110..9340fe5 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -154,8 +154,9 @@ error assemble_float_immediate(context& ctx, token& token, opcode& op, int bits)
         break;
     case token_type::immediate:
         value = static_cast<float>(token.data.immediate);
-        if (static_cast<int64_t>(token.data.immediate) != value) {
-            return fail(token, "integer immediate " PRId64 "cannot be represented as float",
+        // values of 2^63 and more don't fit back in an integer
+        if (value >= 0x1p63f || static_cast<int64_t>(value) != token.data.immediate) {
+            return fail(token, "integer immediate %" PRId64 " cannot be represented as float",
                         token.data.immediate);
         }
         break;
-- 
2.43.0


From 8a4af5b92716a00019d2c941bb70e43601369bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 09/33] fix: -0.0 lost its sign in double and packed half
 immediates

---
 src/helper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index 9340fe5..75b8c4f 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -1,3 +1,4 @@
+#include <bit>
 #include <cinttypes>
 #include <cstdint>
 #include <cstdlib>
@@ -208,7 +209,7 @@ error assemble_double_immediate(context& ctx, token& token, opcode& op)
     switch (token.type) {
     case token_type::float_immediate:
         value = token.data.float_immediate;
-        if (value < 0) {
+        if (std::bit_cast<uint64_t>(value) >> 63) {
             op.add_bits(1ULL << 56);
         }
         break;
@@ -256,7 +257,7 @@ error assemble_half_float_immediate(context& ctx, token& token, opcode& op, int
     switch (token.type) {
     case token_type::float_immediate:
         value = fp32_to_fp16(token.data.float_immediate);
-        if (token.data.float_immediate < 0 && neg_bit >= 0) {
+        if ((value & 0x8000) && neg_bit >= 0) {
             op.add_bits(1ULL << neg_bit);
         }
         break;
-- 
2.43.0


From 721a6d8f5b6c92975e14936292895cc790a84354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:13 +0000
Subject: [PATCH 10/33] fix: ATOMS silently dropped the low bits of an
 unaligned offset

---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 98b6db0..5d3d64f 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -429,6 +429,9 @@ namespace memory
 
                 uint64_t value;
                 CHECK(convert_integer(token, min, max, &value));
+                if (value & max_bits(shr)) {
+                    return fail(token, "offset has to be aligned to %d bytes", 1 << shr);
+                }
                 value >>= shr;
                 op.add_bits((value & max_bits(size)) << addr);
                 token = ctx.tokenize();
-- 
2.43.0


From 55acd1d79b1b4abc62d6c909618121c4cab5b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:17 +0000
Subject: [PATCH 11/33] fix: @!PT was accepted on instructions without
 predicated execution

---
 src/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 72567ed..beb15e8 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -108,7 +108,7 @@ static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& in
     op.add_bits(insn.opcode);
 
     token token = ctx.tokenize();
-    if ((insn.flags & NO_PRED) && (~op.value & (7ULL << 16))) {
+    if ((insn.flags & NO_PRED) && (op.value & (15ULL << 16)) != (7ULL << 16)) {
         return {fail(token, "%s does not support predicated execution", insn.mnemonic), 0};
     }
     int score = 1;
-- 
2.43.0


From f5c4bb797299cd38599e41aa6a2f7893858ede19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:18 +0000
Subject: [PATCH 12/33] fix: a lone '.' was accepted as a modifier and selected
 reserved encodings

---
 src/helper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helper.cpp b/src/helper.cpp
index 75b8c4f..a6fa6f4 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -79,6 +79,10 @@ std::optional<uint64_t> find_in_table(const token& token, const char* const* tab
         }
         text = text.substr(std::size(prefix));
     }
+    if (text.empty()) {
+        // empty names are holes in the table, they can't be written
+        return {};
+    }
 
     for (size_t i = 0; table[i]; ++i) {
         if (text.compare(table[i]) != 0) {
-- 
2.43.0


From acca4ba60a04c82189f778c1bdbea7113e434698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:22 +0000
Subject: [PATCH 13/33] fix: .PO with a negated operand aborted instead of
 being rejected

---
 src/operand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 5d3d64f..598f501 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -71,6 +71,9 @@ inline error assemble_cc_tests(context& ctx, opcode& op, token& token, const cha
 inline error assemble_flag(context& ctx, opcode& op, token& token, const char* flag, int address)
 {
     if (equal(token, flag)) {
+        if ((op.value >> address) & 1) {
+            return fail(token, "%s can't be used with the other modifiers", flag);
+        }
         op.add_bits(1ULL << address);
         token = ctx.tokenize();
     }
@@ -338,6 +341,9 @@ template <int address>
 DEFINE_OPERAND(neg)
 {
     if (token.type == token_type::minus) {
+        if ((op.value >> address) & 1) {
+            return fail(token, "operand is already negated");
+        }
         op.add_bits(1ULL << address);
         token = ctx.tokenize();
     }
-- 
2.43.0


From ccebec7cc9443ae07fce139d55682ee66fcb6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:23 +0000
Subject: [PATCH 14/33] fix: a lone R was read as R0, and a lone P swallowed
 what followed it, even past the end

---
 src/context.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index dc82453..a5aeafa 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -183,7 +183,8 @@ token context::tokenize()
             token.data.regster = ZERO_REGISTER;
             return token;
         }
-        bool invalid_register = false;
+        // a lone R is not a register, it's the name of a swizzle
+        bool invalid_register = is_separator(*text);
         while (!is_separator(*text)) {
             if (!is_decimal(*text)) {
                 invalid_register = true;
@@ -210,10 +211,13 @@ token context::tokenize()
             return token;
         }
     }
-    do {
+    if (text == contents) {
+        // the first character of an identifier can be a separator (e.g. .FTZ)
         next();
-    } while (!is_separator(*text));
-
+    }
+    while (!is_separator(*text)) {
+        next();
+    }
     if (text[-1] == ':') {
         // ignore labels
         return tokenize();
-- 
2.43.0


From 2aade3400a137777f5a9f2f021e41dde22561875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:24 +0000
Subject: [PATCH 15/33] fix: the label pass read past the end of a text that
 ends in a word

---
 src/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index a5aeafa..7cf0f2c 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -273,6 +273,9 @@ void context::generate_labels()
         next();
     };
     const auto next_line = [this, advance] {
+        if (!*text) {
+            return;
+        }
         do {
             advance();
         } while (*text && column > 0);
-- 
2.43.0


From 51598f28d7775d3f5ba0f22fc92692853f6dd5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:54 +0000
Subject: [PATCH 16/33] fix: integer literals that do not fit in 64 bits were
 silently saturated

---
 src/context.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index 7cf0f2c..6fb2e6f 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
@@ -161,7 +162,12 @@ token context::tokenize()
             token.data.float_immediate = std::strtof(contents, &conversion_end);
         } else {
             token.type = token_type::immediate;
+            errno = 0;
             token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &conversion_end, 0));
+            if (errno == ERANGE) {
+                fatal_error(token, "literal \33[1;31m%.*s\33[0m doesn't fit in 64 bits",
+                            (int)(text - contents), contents);
+            }
         }
         if (conversion_end != text) {
             fatal_error(token, "failed to parse literal \33[1;31m%.*s\33[0m",
-- 
2.43.0


From 2d63d7761f234b8e7d8278fbaa416301dfc92762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 17/33] fix: the source after a null character was ignored by
 the tool and aborted the library

---
 src/command_line.cpp | 2 +-
 src/nxas.cpp         | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 7444c78..133983c 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -51,7 +51,7 @@ int main(int argc, char** argv)
         fatal_error("no output file");
     }
     const std::string input_text = read_file(input_file);
-    const std::vector<uint64_t> binary = nxas::assemble(input_text.c_str(), input_file);
+    const std::vector<uint64_t> binary = nxas::assemble(input_text, input_file);
     try {
         std::ofstream outfp(output_file, std::ios::binary);
         if (!outfp.is_open()) {
diff --git a/src/nxas.cpp b/src/nxas.cpp
index 6d19636..5de3c28 100644
--- a/src/nxas.cpp
+++ b/src/nxas.cpp
@@ -24,6 +24,9 @@ static uint64_t generate_sched(std::span<const opcode> opcodes, size_t index,
 
 std::vector<uint64_t> assemble(const std::string& code, const char* filename)
 {
+    if (code.find('\0') != std::string::npos) {
+        fatal_error("%s: null character in source", filename);
+    }
     // Prepare our context
     context ctx(filename, code.c_str());
 
-- 
2.43.0


From 36aadab4f83d02da3efdec1fe19c59d208be56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:57 +0000
Subject: [PATCH 18/33] fix: option values were silently truncated, negative
 sizes were accepted

---
 src/options.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/options.cpp b/src/options.cpp
index 7208d9f..d9038d2 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -35,6 +35,14 @@ void context::parse_option(token& token)
                         static_cast<int>(token.data.string.size()), token.data.string.data());
         }
     };
+    const auto parse_size = [&token] {
+        // keep sizes small enough for every size derived from them to fit in 32 bits
+        uint64_t value = 0;
+        if (error message = convert_integer(token, 0, max_bits(24), &value); message) {
+            message.raise();
+        }
+        return static_cast<int>(value);
+    };
     if (equal(token, ".dksh")) {
         is_dksh = true;
         parse_type();
@@ -45,7 +53,7 @@ void context::parse_option(token& token)
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
-        num_gprs = static_cast<int>(token.data.immediate);
+        num_gprs = parse_size();
         check_option_line();
     } else if (equal(token, ".workgroup_size")) {
         for (int i = 0; i < 3; ++i) {
@@ -53,7 +61,7 @@ void context::parse_option(token& token)
             if (token.type != token_type::immediate) {
                 fatal_error(token, "expected workgroup sizes");
             }
-            block_dimensions[i] = static_cast<int>(token.data.immediate);
+            block_dimensions[i] = parse_size();
         }
         check_option_line();
     } else if (equal(token, ".shared_memory")) {
@@ -61,13 +69,13 @@ void context::parse_option(token& token)
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected shared memory size");
         }
-        shared_mem_size = static_cast<int>(token.data.immediate);
+        shared_mem_size = parse_size();
     } else if (equal(token, ".local_memory")) {
         token = tokenize();
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected local memory size");
         }
-        local_mem_size = static_cast<int>(token.data.immediate);
+        local_mem_size = parse_size();
     }
     token = tokenize();
     if (option_line == token.line) {
-- 
2.43.0


From 70518c1ca75cb19059642cda5814041f16d918e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 19/33] fix: unknown options were silently ignored

---
 src/options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/options.cpp b/src/options.cpp
index d9038d2..c3fa882 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -76,6 +76,9 @@ void context::parse_option(token& token)
             fatal_error(token, "expected local memory size");
         }
         local_mem_size = parse_size();
+    } else {
+        fatal_error(token, "unknown option \33[1m%.*s\33[0m",
+                    static_cast<int>(token.data.string.size()), token.data.string.data());
     }
     token = tokenize();
     if (option_line == token.line) {
-- 
2.43.0


From f45d66a1bff150edc272909c5db84e5cffe65975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:59 +0000
Subject: [PATCH 20/33] fix: a second definition of a label was silently
 ignored

---
 src/context.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 6fb2e6f..b56ccfe 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -303,7 +303,13 @@ void context::generate_labels()
         if (*text == ':') {
             std::string label;
             label.append(potential_label, static_cast<size_t>(text - potential_label));
-            labels.insert({std::move(label), pc});
+            if (!labels.insert({label, pc}).second) {
+                token token;
+                token.filename = filename;
+                token.line = line;
+                token.column = column - static_cast<int>(label.size());
+                fatal_error(token, "label \33[1m%s\33[0m already defined", label.c_str());
+            }
         }
         next_line();
     }
-- 
2.43.0


From f0e6f6c4daa0aa99819aa44f5ec00b185cb24dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:00 +0000
Subject: [PATCH 21/33] fix: an unreadable input file was reported without its
 name or ended in an abort

---
 src/command_line.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 133983c..b541e2a 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -11,13 +11,16 @@ static std::string read_file(const char* filename)
 {
     std::ifstream file(filename, std::ios::binary);
     if (!file.is_open()) {
-        fatal_error(nullptr, "%s: failed to open", filename);
+        fatal_error("%s: failed to open", filename);
+    }
+    std::string text;
+    char buffer[4096];
+    while (file.read(buffer, sizeof(buffer)) || file.gcount() > 0) {
+        text.append(buffer, static_cast<size_t>(file.gcount()));
+    }
+    if (file.bad()) {
+        fatal_error("%s: failed to read", filename);
     }
-    file.seekg(0, std::ios::end);
-    std::string text(file.tellg(), ' ');
-
-    file.seekg(0, std::ios::beg);
-    file.read(std::data(text), std::size(text));
     return text;
 }
 
-- 
2.43.0


From fda84092a769c2795c525be26cbb624e4f4169de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:01 +0000
Subject: [PATCH 22/33] fix: a failed write of the output file was reported as
 success

---
 src/command_line.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index b541e2a..f03cb24 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -60,7 +60,9 @@ int main(int argc, char** argv)
         if (!outfp.is_open()) {
             fatal_error("%s: failed to open", output_file);
         }
+        outfp.exceptions(std::ios::failbit | std::ios::badbit);
         outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));
+        outfp.close();
     } catch (const std::ios_base::failure& e) {
         fatal_error("failed to write output file: %s", e.what());
     }
-- 
2.43.0


From cc7dca5011c969ed7e5a7081baf8a011f3049cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:32 +0000
Subject: [PATCH 23/33] fix: a long run of labels overflowed the stack

---
 src/context.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index b56ccfe..4de7f94 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -80,6 +80,7 @@ context::~context() = default;
 
 token context::tokenize()
 {
+restart:
     while (is_contained(" \t\r\n", *text)) {
         next();
     }
@@ -225,8 +226,8 @@ token context::tokenize()
         next();
     }
     if (text[-1] == ':') {
-        // ignore labels
-        return tokenize();
+        // ignore labels, without recursing as there can be any number of them
+        goto restart;
     }
     token.type = token_type::identifier;
     token.data.string = std::string_view(contents, static_cast<size_t>(text - contents));
-- 
2.43.0


From 13953df30784d41de7ce41ddf07614d21990e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:03 +0000
Subject: [PATCH 24/33] fix: I2I to a signed format took byte selectors for
 16-bit sources

---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index 598f501..8e6552b 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1298,7 +1298,7 @@ namespace i2i
         static const char* bytes[] = {"B0", "B1", "B2", "B3", nullptr};
         static const char* shorts[] = {"H0", "INVALIDSIZE1", "H1", "INVALIDSIZE3", nullptr};
 
-        const uint64_t type = (op.value >> 10) & 0b111;
+        const uint64_t type = (op.value >> 10) & 0b11;
         const char* const* const table = type == 1 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
-- 
2.43.0


From 7ac4feb8b657de83d88e4d7de7378a846fabbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:34 +0000
Subject: [PATCH 25/33] fix: a byte selector on a 32-bit video source aborted
 or selected a reserved format

---
 src/operand.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 8e6552b..296cfe1 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1448,6 +1448,10 @@ namespace video
         static const char* shorts[] = {"H0", "H1", nullptr};
 
         const uint64_t type = (op.value >> type_address) & 0b111;
+        if (type == 3) {
+            // the selector shares bits with the format, 32-bit formats have none
+            return {};
+        }
         const char* const* const table = type == 2 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
-- 
2.43.0


From 1f22641f34755ac00f7b70c46b4de9181a0645ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 26/33] fix: avoid signed overflow on extreme numeric branch
 targets

---
 src/operand.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 296cfe1..0d0d9bf 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -145,10 +145,11 @@ DEFINE_OPERAND(label)
 
     static constexpr int64_t max = max_bits(23);
     static constexpr int64_t min = -static_cast<int64_t>(max_bits(23)) - 1;
-    const int64_t value = absolute - ctx.pc - 8;
-    if (value > max || value < min) {
+    const int64_t base = ctx.pc + 8;
+    if (absolute > base + max || absolute < base + min) {
         return fail(token, "label out of range");
     }
+    const int64_t value = absolute - base;
     op.add_bits((static_cast<uint64_t>(value) & 0x7FFFFF) << 20);
     op.add_bits((value < 0 ? 1ULL : 0ULL) << 43);
 
-- 
2.43.0


From d8a61c4507dfc1e2e0e7b0b49773c3b2de6f53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:27 +0000
Subject: [PATCH 27/33] fix: reject memory size options whose value is on
 another line

---
 src/options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index c3fa882..43b7358 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -61,21 +61,23 @@ void context::parse_option(token& token)
             if (token.type != token_type::immediate) {
                 fatal_error(token, "expected workgroup sizes");
             }
+            check_option_line();
             block_dimensions[i] = parse_size();
         }
-        check_option_line();
     } else if (equal(token, ".shared_memory")) {
         token = tokenize();
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected shared memory size");
         }
         shared_mem_size = parse_size();
+        check_option_line();
     } else if (equal(token, ".local_memory")) {
         token = tokenize();
         if (token.type != token_type::immediate) {
             fatal_error(token, "expected local memory size");
         }
         local_mem_size = parse_size();
+        check_option_line();
     } else {
         fatal_error(token, "unknown option \33[1m%.*s\33[0m",
                     static_cast<int>(token.data.string.size()), token.data.string.data());
-- 
2.43.0


From 76f6940f974a92ab9df18c3cc3948c01b2e95a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:09 +0000
Subject: [PATCH 28/33] fix: report a guard on an unpredicated instruction at
 its mnemonic

---
 src/parse.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index beb15e8..51e6738 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -103,14 +103,15 @@ static error assemble_sched(context& ctx, token& token, opcode& op)
     return {};
 }
 
-static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& insn)
+static std::pair<error, int> parse_insn(context& ctx, const token& mnemonic, opcode& op,
+                                        const insn& insn)
 {
     op.add_bits(insn.opcode);
 
-    token token = ctx.tokenize();
     if ((insn.flags & NO_PRED) && (op.value & (15ULL << 16)) != (7ULL << 16)) {
-        return {fail(token, "%s does not support predicated execution", insn.mnemonic), 0};
+        return {fail(mnemonic, "%s does not support predicated execution", insn.mnemonic), 0};
     }
+    token token = ctx.tokenize();
     int score = 1;
     for (const operand& operand : insn.operands) {
         if (error message = operand(ctx, token, op); message) {
@@ -162,7 +163,7 @@ bool parse_instruction(context& ctx, opcode& op)
         if (!equal(token, insn.mnemonic)) {
             continue;
         }
-        auto [insn_error, score] = parse_insn(ctx, op, insn);
+        auto [insn_error, score] = parse_insn(ctx, token, op, insn);
         if (!insn_error) {
             // successfully decoded instruction
             ctx.pc += 8;
-- 
2.43.0


From f5d06766db2a5bf2190f8d590b8e73f8794b729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:02 +0000
Subject: [PATCH 29/33] fix: assembling took time quadratic in the number of
 labels

The parser saves and restores the context for every form of an instruction
it tries, and with it copied the table of labels: 16000 labels took 23 s.
---
 src/context.cpp | 7 ++++---
 src/context.h   | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 4de7f94..f973a01 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -236,8 +236,8 @@ restart:
 
 std::optional<int64_t> context::find_label(std::string_view label) const
 {
-    const auto it = labels.find(std::string{label});
-    if (it == std::end(labels)) {
+    const auto it = labels->find(std::string{label});
+    if (it == labels->end()) {
         return {};
     }
     return it->second;
@@ -291,6 +291,7 @@ void context::generate_labels()
     assert(line == 0 && column == 0);
 
     pc = 8;
+    labels = std::make_shared<std::unordered_map<std::string, int64_t>>();
 
     while (*text) {
         if (!is_alpha(*text)) {
@@ -304,7 +305,7 @@ void context::generate_labels()
         if (*text == ':') {
             std::string label;
             label.append(potential_label, static_cast<size_t>(text - potential_label));
-            if (!labels.insert({label, pc}).second) {
+            if (!labels->insert({label, pc}).second) {
                 token token;
                 token.filename = filename;
                 token.line = line;
diff --git a/src/context.h b/src/context.h
index 1869be5..59da2e1 100644
--- a/src/context.h
+++ b/src/context.h
@@ -3,6 +3,7 @@
 #include <array>
 #include <cstddef>
 #include <cstdint>
+#include <memory>
 #include <optional>
 #include <span>
 #include <string>
@@ -54,7 +55,8 @@ class context
     const char* text;
     int line = 0;
     int column = 0;
-    std::unordered_map<std::string, int64_t> labels;
+    // shared, as the parser saves and restores contexts and there can be any number of labels
+    std::shared_ptr<std::unordered_map<std::string, int64_t>> labels;
 
     std::optional<program_type> type;
     bool is_dksh = false;
-- 
2.43.0


From c3a7778e39fd29c2b2547f26bedaac05cace247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:41 +0000
Subject: [PATCH 30/33] fix: read the decimal point of literals independently
 of the locale

std::strtof expects the decimal point of the current locale, so a program
that calls setlocale could not assemble any floating-point literal.
---
 src/context.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index f973a01..d1509f8 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -2,11 +2,13 @@
 #include <cassert>
 #include <cctype>
 #include <cerrno>
+#include <charconv>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <string_view>
 
@@ -39,6 +41,26 @@ static bool is_decimal(int character) noexcept
     return character >= '0' && character <= '9';
 }
 
+// std::strtof reads the decimal point of the current locale, this always reads '.'
+static float parse_float(const char* begin, const char* end, char** conversion_end) noexcept
+{
+    const char* const number = begin[0] == '+' && begin[1] != '-' ? begin + 1 : begin;
+    float value = 0.0f;
+    const auto [ptr, ec] = std::from_chars(number, end, value, std::chars_format::fixed);
+    if (ec == std::errc::result_out_of_range) {
+        // either too large or, when the integer part is zero, too small
+        const bool is_negative = *number == '-';
+        const char* digit = number + (is_negative ? 1 : 0);
+        while (*digit == '0') {
+            ++digit;
+        }
+        value = *digit == '.' ? 0.0f : std::numeric_limits<float>::infinity();
+        value = is_negative ? -value : value;
+    }
+    *conversion_end = const_cast<char*>(ptr);
+    return value;
+}
+
 static bool is_alnum(int character) noexcept
 {
     return is_alpha(character) || is_decimal(character);
@@ -156,11 +178,10 @@ restart:
         if (!is_separator(*text)) {
             fatal_error(token, "no separator after immediate");
         }
-        // TODO: use charconv here once gcc 11 ships
         char* conversion_end = nullptr;
         if (is_floating_point) {
             token.type = token_type::float_immediate;
-            token.data.float_immediate = std::strtof(contents, &conversion_end);
+            token.data.float_immediate = parse_float(contents, text, &conversion_end);
         } else {
             token.type = token_type::immediate;
             errno = 0;
-- 
2.43.0


From 33b8e954ac1ab35950c527a4b9894687e4fe2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:50 +0000
Subject: [PATCH 31/33] fix: print out of range integers in full

Integers of 64 bits were printed with %d.
---
 src/helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index a6fa6f4..2b4c3a3 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -56,7 +56,7 @@ error convert_integer(const token& token, int64_t min, int64_t max, uint64_t* re
     int64_t value = token.data.immediate;
     if (value < min || value > max) {
         return fail(token,
-                    "integer \33[1m%d\33[0m is out of range, expected to be "
+                    "integer \33[1m%" PRId64 "\33[0m is out of range, expected to be "
                     "from %" PRId64 " to %" PRId64 " inclusively",
                     value, min, max);
     }
-- 
2.43.0


From 457da95cbc7fb2d4b7a001c2bd94ddb619a8205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:24 +0000
Subject: [PATCH 32/33] fix: name the existing image access modes in the
 diagnostic

There is no .B, surface instructions take .P or .D.
---
 src/operand.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 0d0d9bf..c6d9ecf 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -876,7 +876,7 @@ namespace image
     DEFINE_OPERAND(p)
     {
         if (!equal(token, ".P")) {
-            return fail(token, "expected .P or .B");
+            return fail(token, "expected .P or .D");
         }
         token = ctx.tokenize();
         return {};
@@ -885,7 +885,7 @@ namespace image
     DEFINE_OPERAND(d)
     {
         if (!equal(token, ".D")) {
-            return fail(token, "expected .P or .B");
+            return fail(token, "expected .P or .D");
         }
         op.add_bits(1ULL << 52);
         token = ctx.tokenize();
-- 
2.43.0


From 9ca8cf7312f61c572dca5e87dd33759b9159936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:09 +0000
Subject: [PATCH 33/33] fix: don't quote words that aren't identifiers as if
 they were

The string of the token is only there when it is an identifier: S2R and
.type read the other members of the union as one and printed "(null)".
---
 src/operand.h   | 3 ++-
 src/options.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index c6d9ecf..584cd05 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1197,8 +1197,9 @@ DEFINE_OPERAND(s2r)
     } else {
         value = find_in_table(token, table, "");
         if (!value) {
+            const std::string_view tkninfo = info(token);
             return fail(token, "invalid system register \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(tkninfo.size()), tkninfo.data());
         }
         token = ctx.tokenize();
     }
diff --git a/src/options.cpp b/src/options.cpp
index 43b7358..e32189d 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -31,8 +31,9 @@ void context::parse_option(token& token)
         } else if (equal(token, "compute")) {
             type = program_type::compute;
         } else {
+            const std::string_view tkninfo = info(token);
             fatal_error(token, "invalid program type \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(tkninfo.size()), tkninfo.data());
         }
     };
     const auto parse_size = [&token] {
-- 
2.43.0

