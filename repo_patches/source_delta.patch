From c4d12c4a2251fc9350e473ddc18796a891a518f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 01/26] fix: appending zero bytes to an MD5 context used
 uninitialised variables

---
 src/hashes/md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashes/md5.c b/src/hashes/md5.c
index f6ceaf8..4a90d52 100644
--- a/src/hashes/md5.c
+++ b/src/hashes/md5.c
@@ -30,7 +30,7 @@ void pgfe_md5_init(struct pgfe_md5_ctx *ctx) {
 }
 
 void pgfe_md5_update(struct pgfe_md5_ctx *ctx, const pgfe_encode_t input[], size_t length) {
-    if (!ctx || !input) return;
+    if (!ctx || !input || !length) return;
 
     size_t read_len, written_len, remainder, offset;
     const pgfe_encode_t *p;
-- 
2.43.0


From 6c275cd6751a084f9aaada3fe98aae4bcc6be63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 02/26] fix: SHA-1/SHA-2 appends of 2^31 bytes or more
 overflowed an int counter

---
 src/hashes/sha2-backend.c | 2 +-
 src/hashes/templates.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index 57677c0..ead5014 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -195,7 +195,7 @@ void sha384n512_update(struct pgfe_sha512_ctx *ctx, const pgfe_encode_t input[],
     const pgfe_encode_t *inp = input;
     int corrupt_flag = 0, tmpflag;
     uint64_t tmp_low;
-    for (int i = 0; i < length && !corrupt_flag; i++) {
+    for (size_t i = 0; i < length && !corrupt_flag; i++) {
         ctx->block[ctx->index++] = *inp;
 
         tmp_low = ctx->len_low;
diff --git a/src/hashes/templates.h b/src/hashes/templates.h
index 88a9a2c..079142b 100644
--- a/src/hashes/templates.h
+++ b/src/hashes/templates.h
@@ -139,7 +139,7 @@ extern "C" {
         const pgfe_encode_t *inp = input;                                                                              \
         int corrupt_flag = 0;                                                                                          \
         uint32_t tmp_low;                                                                                              \
-        for (int i = 0; i < length && !corrupt_flag; i++) {                                                            \
+        for (size_t i = 0; i < length && !corrupt_flag; i++) {                                                         \
             ctx->block[ctx->index++] = *inp;                                                                           \
                                                                                                                        \
             tmp_low = ctx->len_low;                                                                                    \
-- 
2.43.0


From dc2b5c17b7d0b76a08395b9fd310d68018307b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 03/26] fix: Keccak appends of 2^32 bits or more with a partly
 filled queue lost the high length bits

---
 src/hashes/keccak-backend.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hashes/keccak-backend.c b/src/hashes/keccak-backend.c
index de66566..a04702e 100644
--- a/src/hashes/keccak-backend.c
+++ b/src/hashes/keccak-backend.c
@@ -182,9 +182,9 @@ int keccak_absorb_b1600(struct pgfe_keccak_sponge_ctx *ctx, const pgfe_encode_t
             i += whole_blocks * ctx->rate;
         }
         else {
-            partial_block = (uint32_t)(bit_len - i);
-            if (partial_block + ctx->inqueue_bits > ctx->rate) {
-                partial_block = ctx->rate - ctx->inqueue_bits;
+            partial_block = ctx->rate - ctx->inqueue_bits;
+            if ((uint64_t)partial_block > bit_len - i) {
+                partial_block = (uint32_t)(bit_len - i);
             }
 
             partial_byte = bit_rem(partial_block);
-- 
2.43.0


From 3c42bc08e4f4835a685cdb48d6ecae5696f1afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 04/26] fix: base encoding transform read and wrote one element
 past its buffers

---
 src/base_encoding/base-encoding-internal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 9d21d79..3b103f2 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -23,7 +23,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
     const uint8_t chunk_mask = __mkmask(chunk_size);
 
-    for (low = 0, high = chunk_size % __bitsz; inp - input <= length; inp++, op++) {
+    for (low = 0, high = chunk_size % __bitsz; inp - input < length; inp++, op++) {
         if (low < high) {
             *op = ((*inp) >> (__bitsz - high)) & chunk_mask;
             inp--;
-- 
2.43.0


From 7fbfc376397d20f585e6255f17bca8c77d92b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 05/26] fix: base encoders replaced trailing zero-valued
 symbols by padding

---
 src/base_encoding/base-encoding-internal.c | 9 +++------
 src/base_encoding/base-encoding-internal.h | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 3b103f2..b492a21 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -49,7 +49,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
 size_t unittostr(
     size_t chunk_count, size_t unit_size, size_t bit_size, size_t alphabet_size, const char alphabet[],
-    const pgfe_encode_t unit[], char out[], bool padding
+    const pgfe_encode_t unit[], char out[], size_t padding
 ) {
     char unit_s[chunk_count];
     pgfe_encode_t unit_split[chunk_count];
@@ -61,11 +61,8 @@ size_t unittostr(
     }
 
     if (padding) {
-        for (i = chunk_count - 1; i >= 0; i--) {
-            if (unit_s[i] != alphabet[0]) {
-                break;
-            }
-
+        // Symbols which carry no input bits
+        for (i = (__bitsz * (unit_size - padding) + bit_size - 1) / bit_size; i < chunk_count; i++) {
             unit_s[i] = alphabet[alphabet_size];
         }
     }
diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index 2f9ff7d..f4f9489 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -36,7 +36,7 @@ pgfe_encode_t decode_base16_char(char base16_c);
 
 size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size, pgfe_encode_t out[]);
 
-size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], bool padding);
+size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], size_t padding);
 
 size_t encode_base_generic(
     PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t input[], size_t input_length, char cs_out[]
-- 
2.43.0


From 9e3bfef9f14537ad262b3ae79fa5b4aa7b3debf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 06/26] fix: base decoders dropped trailing zero bytes and
 mishandled empty text

---
 src/base_encoding/base-encoding-internal.c | 17 ++++++++++-------
 src/base_encoding/base-encoding-internal.h |  1 +
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index b492a21..b54b0cf 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -102,14 +102,14 @@ size_t
 decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const char basexx_cs[], pgfe_encode_t output[]) {
     pgfe_encode_t *op, ch, sig, o_unit[unit_size];
     const char *sp = basexx_cs;
-    size_t i, j;
+    size_t i, j, valid, missing = 0;
     uint64_t u;
     const uint8_t mask = __mkmask(bit_size);
 
     u = 0;
     op = output;
     while (*sp) {
-        for (i = 0; *sp && i < chunk_count; sp++) {
+        for (i = valid = 0; *sp && i < chunk_count; sp++) {
             ch = func(*sp);
             sig = ch & 0xC0;
 
@@ -120,8 +120,14 @@ decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const cha
             u = (u << bit_size) | (ch & mask);
 
             i++;
+            if (*sp != PADDING_CHAR) {
+                valid = i;
+            }
         }
 
+        // Nothing but characters out of the alphabet are left
+        if (!i) break;
+
         if (!*sp && i < chunk_count) {
             u <<= bit_size * (chunk_count - i);
         }
@@ -132,14 +138,11 @@ decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const cha
 
         memcpy(op, o_unit, unit_size);
         op += unit_size;
+        missing = unit_size - valid * bit_size / __bitsz;
     }
 
     // Determine end of the output
-    op -= unit_size;
-    for (i = 0; i < unit_size && op[i] == o_unit[i] && op[i]; i++)
-        ;
-
-    op += i;
+    op -= missing;
     *op = 0;
     return op - output;
 }
\ No newline at end of file
diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index f4f9489..aa3c64f 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -18,6 +18,7 @@
 extern "C" {
 #endif
 
+#define PADDING_CHAR ('=')
 #define PADDING_CODE (0x00)
 #define UNKNOWN_CODE (0xC0)
 
-- 
2.43.0


From 72135f38faea93f8b536c1087ad9d3bc3790ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 07/26] fix: hexadecimal parser read out of bounds and counted
 characters which are not digits

---
 src/core/utils.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/core/utils.c b/src/core/utils.c
index 7fa55f6..c2c46cb 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -27,23 +27,25 @@ size_t pgfe_hash_to_hex_string(const pgfe_encode_t hash[], size_t hash_length, c
 }
 
 size_t pgfe_hex_string_to_hash(const char hash_s[], pgfe_encode_t hash_out[]) {
-    short pos;
-    size_t hash_str_len = strlen(hash_s);
+    short pos = 0;
+    size_t hash_str_len = strlen(hash_s), i;
     pgfe_encode_t hexu = 0, tmp_o, *op;
-    char *sp = (char *)hash_s, tpc;
+    char *sp = (char *)hash_s;
 
-    tpc = hash_s[1];
-    if (hash_str_len >= 2 && (tpc == 'x' || tpc == 'X')) {
+    if (hash_str_len >= 2 && (sp[1] == 'x' || sp[1] == 'X')) {
         sp += 2;
         hash_str_len -= 2;
     }
 
-    tpc = sp[hash_str_len - 1];
-    if (tpc == 'h' || tpc == 'H') {
-        hash_str_len--;
+    // An odd count of digits is read as if it began with zero
+    for (i = 0; i < hash_str_len; i++) {
+        ch2hex(sp[i], &tmp_o);
+        if (tmp_o != PGFE_HEX_UNKNOWN_CHAR) {
+            pos ^= 1;
+        }
     }
 
-    for (op = hash_out, pos = hash_str_len % 2; *sp; sp++) {
+    for (op = hash_out; *sp; sp++) {
         ch2hex(*sp, &tmp_o);
 
         if (tmp_o == PGFE_HEX_UNKNOWN_CHAR) {
-- 
2.43.0


From bbf55371133697d747d0b1bca35d44967d83d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 08/26] fix: HMAC keys longer than a block were truncated
 instead of hashed

---
 src/hmac/hmac.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hmac/hmac.c b/src/hmac/hmac.c
index 3474c27..eb50574 100644
--- a/src/hmac/hmac.c
+++ b/src/hmac/hmac.c
@@ -21,6 +21,12 @@
     void pgfe_hmac_##name##_set_key(                                                                                   \
         struct pgfe_hmac_##name##_ctx *ctx, const pgfe_encode_t key[], size_t key_length                               \
     ) {                                                                                                                \
+        pgfe_encode_t key_hash[PGFE_##upper##_DIGEST_SIZE];                                                            \
+        if (key_length > PGFE_##upper##_BLOCK_SIZE) {                                                                  \
+            pgfe_##name##_encode(key, key_length, key_hash);                                                           \
+            key = key_hash;                                                                                            \
+            key_length = PGFE_##upper##_DIGEST_SIZE;                                                                   \
+        }                                                                                                              \
         arrcpy(ctx->k_i_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         arrcpy(ctx->k_o_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         for (size_t i = 0; i < PGFE_##upper##_BLOCK_SIZE; i++) {                                                       \
-- 
2.43.0


From fdc27e7dc85166444aebd69ccd6266825205234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 09/26] fix: HMAC passed int lengths where the variadic hash
 function reads size_t

---
 src/hmac/hmac.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmac/hmac.c b/src/hmac/hmac.c
index eb50574..2da0fbc 100644
--- a/src/hmac/hmac.c
+++ b/src/hmac/hmac.c
@@ -45,7 +45,8 @@
         pgfe_encode_t mid_hash[PGFE_##upper##_DIGEST_SIZE + 1];                                                        \
         pgfe_##name##_digest(&ctx->hash_ctx, mid_hash);                                                                \
         pgfe_##name##_encode_multiple(                                                                                 \
-            output, 2, ctx->k_o_pad, PGFE_##upper##_BLOCK_SIZE, mid_hash, PGFE_##upper##_DIGEST_SIZE                   \
+            output, 2, ctx->k_o_pad, (size_t)PGFE_##upper##_BLOCK_SIZE, mid_hash,                                      \
+            (size_t)PGFE_##upper##_DIGEST_SIZE                                                                         \
         );                                                                                                             \
     }                                                                                                                  \
     inline void pgfe_hmac_##name(                                                                                      \
-- 
2.43.0


From 855d83a773a44869277a13c51bca03e86879da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 10/26] fix: Blowfish object allocated too small a buffer for
 the padded result

---
 src/fishes/blowfish.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index a28e84b..7b738c8 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -25,7 +25,7 @@ Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
 Blowfish::~Blowfish() {}
 
 SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_encrypt(&ctx, seq, length, output.get());
@@ -33,7 +33,7 @@ SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
 }
 
 SequentialData Blowfish::decrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_decrypt(&ctx, seq, length, output.get());
-- 
2.43.0


From 4c911fe27d93eb13e05ea630a0d52ee69c5b1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 11/26] fix: Blowfish object cut C++ string keys at the first
 zero byte

---
 src/fishes/blowfish.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index 7b738c8..dd59299 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -20,7 +20,7 @@ Blowfish::Blowfish(const pgfe_encode_t *key, size_t length) {
     pgfe_blowfish_init(&ctx, key, length);
 }
 
-Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
+Blowfish::Blowfish(const std::string &key) : Blowfish((const pgfe_encode_t *)key.c_str(), key.length()) {}
 
 Blowfish::~Blowfish() {}
 
-- 
2.43.0


From 24cb921aa7a375971a640b1b8f70cb603a566c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 12/26] fix: trimming sequential data never removed anything

---
 src/core/sequential_data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 69d8c60..3c6ef4e 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -72,9 +72,9 @@ inline void SequentialData::trim_() {
 }
 
 inline void SequentialData::trim_left_() {
-    erase(0, find_first_not_of(ws));
+    erase(0, find_first_not_of(ws, 0, sizeof(ws)));
 }
 
 inline void SequentialData::trim_right_() {
-    erase(find_last_not_of(ws) + 1, length());
+    erase(find_last_not_of(ws, npos, sizeof(ws)) + 1);
 }
\ No newline at end of file
-- 
2.43.0


From 183b4a88edda36814922f81667471652ca24df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 13/26] fix: hash encoder object used wrong lengths and too
 small a buffer

---
 src/hashes/hash_encoder.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index e4c64a4..131c74e 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -100,8 +100,6 @@ inline void HashEncoder::update(SequentialData &sd) {
 const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
     bool shake_flag = this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128 || this->cur_alg == SHAKE256 ||
                       this->cur_alg == RawSHAKE256;
-    uint64_t in_len = to_byte(bitlength) + bit_rem(bitlength);
-
     if (!bitlength) {
         if (this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128) {
             bitlength = 256;
@@ -111,8 +109,9 @@ const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
         }
     }
 
-    size_t length = shake_flag ? in_len : in_len < digsz && bitlength ? in_len : digsz;
-    pgfe_encode_t seq[length];
+    uint64_t in_len = to_byte(bitlength);
+    size_t length = shake_flag || (bitlength && in_len < digsz) ? in_len : digsz;
+    pgfe_encode_t seq[length < digsz ? digsz : length];
 
     if (shake_flag) {
         __PGFE_BATCH_SHAKE_CASES(DIGEST_FUNC_CALL_LIMIT)
-- 
2.43.0


From bf7b447c6d7e7258cd82150ed48c4e12c8dcda52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 14/26] fix: HOTP object started with an uninitialised counter

---
 include/libpgfe/otp/hotp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpgfe/otp/hotp.hpp b/include/libpgfe/otp/hotp.hpp
index b27b1f1..eaf047f 100644
--- a/include/libpgfe/otp/hotp.hpp
+++ b/include/libpgfe/otp/hotp.hpp
@@ -24,7 +24,7 @@ private:
     std::unique_ptr<SequentialData> secret;
     size_t digsz, blocksz;
 
-    pgfe_otp_counter_t co;
+    pgfe_otp_counter_t co = 0;
 
     Base32 base32;
 
-- 
2.43.0


From aeb2d9fe641e937fdf33767faa1d531abd4c50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 15/26] fix: TOTP object kept a stale counter after setting
 changes and clock steps

---
 src/otp/totp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index 3d23e64..2ca0f81 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -70,11 +70,11 @@ time_t TOTP::remaining_time() const {
 }
 
 pgfe_otp_t TOTP::generate(uint8_t digit_count) {
-    if (remaining_time() <= 0) update_counter();
+    update_counter();
     return this->HOTP::generate(digit_count);
 }
 
 std::string TOTP::generate_str(uint8_t digit_count) {
-    if (remaining_time() <= 0) update_counter();
+    update_counter();
     return this->HOTP::generate_str(digit_count);
 }
-- 
2.43.0


From 2d90bea164f82359d3c372264f23af0d81114a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 16/26] fix: algorithm selection compared with an uninitialised
 choice

---
 include/libpgfe/algorithm_selectable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpgfe/algorithm_selectable.hpp b/include/libpgfe/algorithm_selectable.hpp
index ad450c0..36efa3c 100644
--- a/include/libpgfe/algorithm_selectable.hpp
+++ b/include/libpgfe/algorithm_selectable.hpp
@@ -19,7 +19,7 @@ namespace libpgfe {
 class AlgorithmSelectable
 {
 protected:
-    pgfe_algorithm_choice cur_alg;
+    pgfe_algorithm_choice cur_alg = (pgfe_algorithm_choice)-1;
 
     virtual void before_change_alg() {}
     virtual void after_change_alg() {}
-- 
2.43.0


From 3a5de943445d24d9d29de2ee603a9b029a445ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 17/26] fix: SHAKE outputs of 2^32 bits or more were cut to the
 low 32 bits of the length

---
 include/libpgfe/hashes/sha3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/hashes/sha3.h b/include/libpgfe/hashes/sha3.h
index d35468a..70eef4a 100644
--- a/include/libpgfe/hashes/sha3.h
+++ b/include/libpgfe/hashes/sha3.h
@@ -27,7 +27,8 @@ struct pgfe_keccak_sponge_ctx
 {
     pgfe_keccak_bitcube_t state;                                    // Keccak sponge state array
     pgfe_encode_t data_queue[pgfe_to_byte(__PGFE_KECCAK_MAX_RATE)]; // Data queue
-    uint32_t rate, capacity, inqueue_bits, out_length;              // Rate, capacity, bits in queue, output bit length
+    uint32_t rate, capacity, inqueue_bits;                          // Rate, capacity, bits in queue
+    uint64_t out_length;                                            // Output bit length
     uint16_t nr;                                                    // Number of rounds (Usually 24)
     int squeezing;                                                  // Is squeezing
     unsigned int squeezable;                                        // Size of squeezable bits
-- 
2.43.0


From c3e5b1a13e8413bfd0477c8899f50661f24278e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 18/26] fix: SHA-1/SHA-2 padding kept message bytes in the
 second padding block

---
 src/hashes/sha1.c         | 3 ++-
 src/hashes/sha2-backend.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hashes/sha1.c b/src/hashes/sha1.c
index bdb7758..3a37270 100644
--- a/src/hashes/sha1.c
+++ b/src/hashes/sha1.c
@@ -96,7 +96,8 @@ static void sha1_padding(struct pgfe_sha1_ctx *ctx) {
         ctx->index = PGFE_SHA1_BLOCK_SIZE;
         sha1_process_block(ctx);
     }
-    else if (ctx->index < 56) {
+
+    if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
         ctx->index = 56;
     }
diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index ead5014..423f970 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -83,7 +83,8 @@ void sha224n256_padding(struct pgfe_sha256_ctx *ctx) {
         ctx->index = PGFE_SHA256_BLOCK_SIZE;
         sha256_process_block(ctx);
     }
-    else if (ctx->index < 56) {
+
+    if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
         ctx->index = 56;
     }
@@ -223,7 +224,8 @@ void sha384n512_padding(struct pgfe_sha512_ctx *ctx, pgfe_encode_t padding_byte)
         ctx->index = PGFE_SHA512_BLOCK_SIZE;
         sha384n512_process_block(ctx);
     }
-    else if (ctx->index < 112) {
+
+    if (ctx->index < 112) {
         memset(&ctx->block[ctx->index], 0, 112 - ctx->index);
         ctx->index = 112;
     }
-- 
2.43.0


From b1d697168aa964b7fe718719417fbc1d46ce63a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 19/26] fix: in-place trim functions of SequentialData were
 inline in the source file and could not be linked to

---
 src/core/sequential_data.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 3c6ef4e..26de70d 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -66,15 +66,15 @@ SequentialData SequentialData::trim_right() {
     return sd;
 }
 
-inline void SequentialData::trim_() {
+void SequentialData::trim_() {
     trim_left_();
     trim_right_();
 }
 
-inline void SequentialData::trim_left_() {
+void SequentialData::trim_left_() {
     erase(0, find_first_not_of(ws, 0, sizeof(ws)));
 }
 
-inline void SequentialData::trim_right_() {
+void SequentialData::trim_right_() {
     erase(find_last_not_of(ws, npos, sizeof(ws)) + 1);
 }
\ No newline at end of file
-- 
2.43.0


From cc713da37c14c339d88aec0da219fd9645417ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 20/26] fix: SequentialData::hex_str overflowed the stack on
 large data

---
 src/core/sequential_data.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 26de70d..c4acd06 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -8,6 +8,7 @@
 #include "libpgfe/sequential_data.hpp"
 
 #include <cstring>
+#include <memory>
 #include <stdexcept>
 
 using namespace libpgfe;
@@ -33,9 +34,9 @@ std::string SequentialData::to_str(bool auto_hex) const {
 
 std::string SequentialData::hex_str() const {
     size_t sz = this->length();
-    char hex_str[sz * 2 + 1];
-    pgfe_hash_to_hex_string(this->c_str(), sz, hex_str);
-    std::string s(hex_str);
+    std::unique_ptr<char[]> hex_str = std::make_unique<char[]>(sz * 2 + 1);
+    pgfe_hash_to_hex_string(this->c_str(), sz, hex_str.get());
+    std::string s(hex_str.get());
     return s;
 }
 
-- 
2.43.0


From fc3b03c076ab2c1ab3186e8d127ee12ec89bc5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 21/26] fix: from_hex_string overflowed the stack on large
 texts

---
 src/core/utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/utils.cpp b/src/core/utils.cpp
index 9d24d9e..277b721 100644
--- a/src/core/utils.cpp
+++ b/src/core/utils.cpp
@@ -8,6 +8,7 @@
 #include "libpgfe/utils.hpp"
 
 #include <cstring>
+#include <memory>
 
 #include "libpgfe/utils.h"
 
@@ -28,12 +29,12 @@ SequentialData *to_sequential_data(std::string &cpp_s) {
 
 SequentialData *sequential_data::from_hex_string(const char *hex_cs) {
     size_t s_sz = strlen(hex_cs), sz = s_sz / 2 + s_sz % 2;
-    pgfe_encode_t h_out[sz + 1];
+    std::unique_ptr<pgfe_encode_t[]> h_out = std::make_unique<pgfe_encode_t[]>(sz + 1);
 
-    sz = pgfe_hex_string_to_hash(hex_cs, h_out);
+    sz = pgfe_hex_string_to_hash(hex_cs, h_out.get());
     h_out[sz] = 0;
 
-    return to_sequential_data(h_out, sz);
+    return to_sequential_data(h_out.get(), sz);
 }
 
 SequentialData *sequential_data::from_hex_string(std::string &hex_cpps) {
-- 
2.43.0


From 4a35ad9aa7396e5649eeb9d6f66c6504e5939d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 22/26] fix: HashEncoder::get_digest overflowed the stack on
 large SHAKE outputs

---
 src/hashes/hash_encoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index 131c74e..2cfe16a 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -111,7 +111,9 @@ const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
 
     uint64_t in_len = to_byte(bitlength);
     size_t length = shake_flag || (bitlength && in_len < digsz) ? in_len : digsz;
-    pgfe_encode_t seq[length < digsz ? digsz : length];
+    // The requested length may be large, keep it off the stack
+    std::unique_ptr<pgfe_encode_t[]> buffer = std::make_unique<pgfe_encode_t[]>(length < digsz ? digsz : length);
+    pgfe_encode_t *seq = buffer.get();
 
     if (shake_flag) {
         __PGFE_BATCH_SHAKE_CASES(DIGEST_FUNC_CALL_LIMIT)
-- 
2.43.0


From 95a29a2974d202e9ca0e35f7126e647d4290ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 23/26] fix: a TOTP used through its base class returned the
 HOTP code of a stale counter

---
 include/libpgfe/otp/hotp.hpp |  4 ++--
 include/libpgfe/otp/totp.hpp | 12 +++++++-----
 src/otp/totp.cpp             |  9 ++++-----
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/libpgfe/otp/hotp.hpp b/include/libpgfe/otp/hotp.hpp
index eaf047f..085d15c 100644
--- a/include/libpgfe/otp/hotp.hpp
+++ b/include/libpgfe/otp/hotp.hpp
@@ -24,11 +24,11 @@ private:
     std::unique_ptr<SequentialData> secret;
     size_t digsz, blocksz;
 
-    pgfe_otp_counter_t co = 0;
-
     Base32 base32;
 
 protected:
+    mutable pgfe_otp_counter_t co = 0;
+
     void after_change_alg() override;
 
 public:
diff --git a/include/libpgfe/otp/totp.hpp b/include/libpgfe/otp/totp.hpp
index 93d6c31..94696e8 100644
--- a/include/libpgfe/otp/totp.hpp
+++ b/include/libpgfe/otp/totp.hpp
@@ -20,11 +20,13 @@ class TOTP : public HOTP
 {
 private:
     pgfe_totp_interval_t _interval;
-    time_t _initial_time = 0, _update_time = 0;
+    time_t _initial_time = 0;
 
-    pgfe_totp_delta_t delta = 0;
+    // Refreshed by every generation, also through a reference to the base class
+    mutable time_t _update_time = 0;
+    mutable pgfe_totp_delta_t delta = 0;
 
-    void update_counter();
+    void update_counter() const;
 
 public:
     TOTP(pgfe_totp_interval_t = 30, pgfe_algorithm_choice = SHA1);
@@ -44,9 +46,9 @@ public:
 
     time_t remaining_time() const;
 
-    pgfe_otp_t generate(uint8_t digit_count = 6);
+    pgfe_otp_t generate(uint8_t digit_count = 6) const override;
 
-    std::string generate_str(uint8_t digit_count = 6);
+    std::string generate_str(uint8_t digit_count = 6) const override;
 };
 
 } // namespace libpgfe
diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index 2ca0f81..ec0b84f 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -60,21 +60,20 @@ time_t TOTP::update_time() const {
     return _update_time;
 }
 
-void TOTP::update_counter() {
+void TOTP::update_counter() const {
     _update_time = curtime();
-    set_counter(calc_periodic_counter(_update_time, _interval, _initial_time, &delta));
+    co = calc_periodic_counter(_update_time, _interval, _initial_time, &delta);
 }
 
 time_t TOTP::remaining_time() const {
     return delta - (curtime() - _update_time);
 }
 
-pgfe_otp_t TOTP::generate(uint8_t digit_count) {
+pgfe_otp_t TOTP::generate(uint8_t digit_count) const {
     update_counter();
     return this->HOTP::generate(digit_count);
 }
 
-std::string TOTP::generate_str(uint8_t digit_count) {
-    update_counter();
+std::string TOTP::generate_str(uint8_t digit_count) const {
     return this->HOTP::generate_str(digit_count);
 }
-- 
2.43.0


From aacb247040d3f13395a1ef7bc20bdc2664511dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:50 +0000
Subject: [PATCH 24/26] fix: a HashEncoder used through its base class returned
 no digest

---
 include/libpgfe/hashes/hash_encoder.hpp | 3 ++-
 src/hashes/hash_encoder.cpp             | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/hashes/hash_encoder.hpp b/include/libpgfe/hashes/hash_encoder.hpp
index da9c6a4..10f86ed 100644
--- a/include/libpgfe/hashes/hash_encoder.hpp
+++ b/include/libpgfe/hashes/hash_encoder.hpp
@@ -49,7 +49,8 @@ public:
     void update(std::string &cpp_s);
     void update(SequentialData &sd);
 
-    const SequentialData *get_digest(uint64_t bitlength = 0);
+    const SequentialData *get_digest();
+    const SequentialData *get_digest(uint64_t bitlength);
 };
 
 } // namespace libpgfe
diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index 2cfe16a..ef4fdb8 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -97,6 +97,10 @@ inline void HashEncoder::update(SequentialData &sd) {
     return this->AbstractHashEncoder::update(sd);
 }
 
+const SequentialData *HashEncoder::get_digest() {
+    return get_digest(0);
+}
+
 const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
     bool shake_flag = this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128 || this->cur_alg == SHAKE256 ||
                       this->cur_alg == RawSHAKE256;
-- 
2.43.0


From f7f05ea7e56471ce22be54894eac3ea0d3b4a75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 25/26] fix: pgfe_hash_length copied the text to the stack and
 crashed on large texts

---
 src/core/utils.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core/utils.c b/src/core/utils.c
index c2c46cb..3473a94 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -103,11 +103,21 @@ inline size_t pgfe_hash_string_clean_(char hash_s[]) {
 }
 
 size_t pgfe_hash_length(const char hash_s[]) {
-    size_t len = strlen(hash_s);
-    char s[len + 1];
+    const char *sp = hash_s;
+    size_t len = 0;
+    pgfe_encode_t h;
+
+    if (sp[0] && (sp[1] == 'x' || sp[1] == 'X')) {
+        sp += 2;
+    }
 
-    pgfe_hash_string_clean(hash_s, s);
-    len = strlen(s);
+    // The text may be long, count its digits without a copy on the stack
+    for (; *sp; sp++) {
+        ch2hex(*sp, &h);
+        if (h != PGFE_HEX_UNKNOWN_CHAR) {
+            len++;
+        }
+    }
 
     return len / 2 + len % 2;
 }
-- 
2.43.0


From ab2a6fb097fa28120898ae017986c2a9d9ecd026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:43 +0000
Subject: [PATCH 26/26] fix: an exception in encode or decode of a base encoder
 left its mutex locked

---
 src/base_encoding/abstract_base_encoding.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/base_encoding/abstract_base_encoding.cpp b/src/base_encoding/abstract_base_encoding.cpp
index a03a2dc..7f68f27 100644
--- a/src/base_encoding/abstract_base_encoding.cpp
+++ b/src/base_encoding/abstract_base_encoding.cpp
@@ -23,7 +23,7 @@ void AbstractBaseEncoding::init() {
 std::string AbstractBaseEncoding::encode(const pgfe_encode_t *pgfe_c_seq, size_t length) {
     size_t sz = (size_t)ceil(length * ((double)to_bit(sizeof(pgfe_encode_t)) / (double)bitsz) * PGFE_SPACE_MULTIPLE);
 
-    enc_mutex.lock();
+    std::lock_guard<std::mutex> lock(enc_mutex);
     if (encsz <= sz) {
         en_cache = std::make_unique<char[]>(sz + 1);
         encsz = sz;
@@ -33,9 +33,7 @@ std::string AbstractBaseEncoding::encode(const pgfe_encode_t *pgfe_c_seq, size_t
     sz = encode_f(pgfe_c_seq, length, p);
     en_cache[sz] = 0;
 
-    std::string str(p);
-    enc_mutex.unlock();
-    return str;
+    return std::string(p);
 }
 
 std::string AbstractBaseEncoding::encode(const char *cs) {
@@ -54,7 +52,7 @@ SequentialData AbstractBaseEncoding::decode(const char *base_cs) {
     size_t sz =
         (size_t)ceil(strlen(base_cs) * ((double)bitsz / (double)to_bit(sizeof(pgfe_encode_t))) * PGFE_SPACE_MULTIPLE);
 
-    dec_mutex.lock();
+    std::lock_guard<std::mutex> lock(dec_mutex);
     if (decsz <= sz) {
         de_cache = std::make_unique<pgfe_encode_t[]>(sz);
         decsz = sz;
@@ -64,9 +62,7 @@ SequentialData AbstractBaseEncoding::decode(const char *base_cs) {
     sz = decode_f(base_cs, p);
     de_cache[sz] = 0;
 
-    SequentialData sd(p, sz);
-    dec_mutex.unlock();
-    return sd;
+    return SequentialData(p, sz);
 }
 
 SequentialData AbstractBaseEncoding::decode(const std::string &cpp_s) {
-- 
2.43.0

