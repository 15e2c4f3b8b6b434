/* Replay driver for the C part of the library: one command per line on stdin, one result line on stdout.
   Byte strings are hexadecimal; "-" is the empty one, "N" a null pointer.  Every buffer handed to the library is an
   exactly sized heap block, so that the address sanitizer sees any access beyond it. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include "libpgfe/hashes.h"
#include "libpgfe/hmac/hmac.h"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/totp.h"
#include "libpgfe/base_encoding/base16.h"
#include "libpgfe/base_encoding/base32.h"
#include "libpgfe/base_encoding/base64.h"
#include "libpgfe/fishes/blowfish.h"
#include "libpgfe/utils.h"

typedef unsigned char u8;
static __thread char *tokpos;
#define strtok(s, d) strtok_r(s, d, &tokpos)
static __thread time_t fake_now; static __thread int use_fake;
time_t time(time_t *t) { time_t v; if (use_fake) v = fake_now; else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }

struct alg {
    const char *name; size_t ctx, out, block; int xof;
    void (*init)(void *); void (*update)(void *, const u8 *, size_t); void (*digest)(void *, u8 *); void (*digestx)(void *, u8 *, size_t);
    void (*enc)(const u8 *, size_t, u8 *); void (*encx)(const u8 *, size_t, u8 *, size_t);
    void (*encd)(const u8 *, u8 *); void (*encdx)(const u8 *, u8 *, size_t);
    void (*encf)(FILE *, u8 *); void (*encfx)(FILE *, u8 *, size_t);
    void (*encm)(u8 *, size_t, ...); void (*encmx)(u8 *, size_t, size_t, ...);
    size_t hctx; void (*hinit)(void *); void (*hkey)(void *, const u8 *, size_t); void (*hupdate)(void *, const u8 *, size_t); void (*hdigest)(void *, u8 *);
    void (*hmac)(const u8 *, size_t, const u8 *, size_t, u8 *); int choice;
};
#define V(x) ((void *)(x))
#define A2(n, U) {#n, sizeof(struct pgfe_##n##_ctx), PGFE_##U##_DIGEST_SIZE, PGFE_##U##_BLOCK_SIZE, 0, V(pgfe_##n##_init), V(pgfe_##n##_update), V(pgfe_##n##_digest), 0, V(pgfe_##n##_encode), 0, \
    V(pgfe_##n##_encode_default), 0, V(pgfe_##n##_encode_f), 0, V(pgfe_##n##_encode_multiple), 0, \
    sizeof(struct pgfe_hmac_##n##_ctx), V(pgfe_hmac_##n##_init), V(pgfe_hmac_##n##_set_key), V(pgfe_hmac_##n##_update), V(pgfe_hmac_##n##_digest), V(pgfe_hmac_##n), U}
#define A3(n, U) {#n, sizeof(struct pgfe_##n##_ctx), 0, 0, 1, V(pgfe_##n##_init), V(pgfe_##n##_update), 0, V(pgfe_##n##_digest), 0, V(pgfe_##n##_encode), 0, V(pgfe_##n##_encode_default), \
    0, V(pgfe_##n##_encode_f), 0, V(pgfe_##n##_encode_multiple), 0, 0, 0, 0, 0, 0, U}
static struct alg algs[] = {A2(md5, MD5), A2(sha1, SHA1), A2(sha224, SHA224), A2(sha256, SHA256), A2(sha384, SHA384), A2(sha512, SHA512), A2(sha512_224, SHA512_224), A2(sha512_256, SHA512_256),
    A2(sha3_224, SHA3_224), A2(sha3_256, SHA3_256), A2(sha3_384, SHA3_384), A2(sha3_512, SHA3_512),
    A3(rawshake128, RawSHAKE128), A3(shake128, SHAKE128), A3(rawshake256, RawSHAKE256), A3(shake256, SHAKE256)};
static struct alg *alg(const char *n) {
    for (size_t i = 0; i < sizeof algs / sizeof *algs; i++) if (!strcmp(algs[i].name, n)) return algs + i;
    fprintf(stderr, "unknown algorithm %s\n", n); exit(77);
}
static __thread u8 junk = 0xa5;
static void *blk(size_t n) { u8 *p = malloc(n ? n : 1); if (!p) exit(77); memset(p, junk, n); if (!n) { free(p); p = malloc(0); } return p; }
static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static u8 *unhex(const char *s, size_t *n) {
    if (!strcmp(s, "N")) { *n = 0; return 0; }
    size_t l = !strcmp(s, "-") ? 0 : strlen(s) / 2; u8 *p = blk(l);
    for (size_t i = 0; i < l; i++) p[i] = hv(s[2 * i]) * 16 + hv(s[2 * i + 1]);
    *n = l; return p;
}
static u8 *unhexz(const char *s) { size_t n; u8 *p = unhex(s, &n); u8 *q = blk(n + 1); if (n) memcpy(q, p, n); q[n] = 0; free(p); return q; }
static void put(const u8 *p, size_t n) { if (!n) putchar('-'); for (size_t i = 0; i < n; i++) printf("%02x", p[i]); }
#define GUARD 0x5e
static char *tok(void) { char *t = strtok(0, " \n"); if (!t) { fprintf(stderr, "missing argument\n"); exit(77); } return t; }
static size_t num(void) { return strtoull(tok(), 0, 0); }

static __thread struct slot { struct alg *a; void *p; int kind; size_t size; } slots[16];
/* script: ops on slots */
static void script(void) {
    char *t;
    while ((t = strtok(0, " \n"))) {
        struct slot *s = slots + (strcmp(t, "J") ? num() & 15 : 0);
        if (!strcmp(t, "J")) { junk = num(); }
        else if (!strcmp(t, "I")) { free(s->p); s->a = alg(tok()); s->kind = 0; s->p = blk(s->size = s->a->ctx); s->a->init(s->p); }
        else if (!strcmp(t, "R")) { s->a->init(s->p); }
        else if (!strcmp(t, "P")) { free(s->p); s->a = alg(tok()); s->kind = 0; size_t n; u8 *b = unhex(tok(), &n); s->p = blk(s->size = s->a->ctx); memcpy(s->p, b, n); free(b); }
        else if (!strcmp(t, "U")) { size_t n; u8 *b = unhex(tok(), &n); if (b && n) { u8 *c = blk(n); memcpy(c, b, n); s->a->update(s->p, b, n); if (memcmp(b, c, n)) printf("INPUT-CHANGED "); free(c); } else s->a->update(s->p, b, n); free(b); }
        else if (!strcmp(t, "Z")) { size_t n = num(); u8 *b = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) b[i] = (u8)(i * 7 + (i >> 8) * 3 + (i >> 20)); s->a->update(s->p, b, n); free(b); }
        else if (!strcmp(t, "D")) { u8 *o = blk(s->a->out); s->a->digest(s->p, o); put(o, s->a->out); putchar(' '); free(o); }
        else if (!strcmp(t, "X")) { size_t n = num(); u8 *o = blk(n); s->a->digestx(s->p, o, n * 8); put(o, n); putchar(' '); free(o); }
        else if (!strcmp(t, "DN")) { s->a->digest(s->p, 0); }
        else if (!strcmp(t, "NU")) { size_t n = num(); u8 *b = blk(n); s->a->update(0, b, n); free(b); }
        else if (!strcmp(t, "HI")) { free(s->p); s->a = alg(tok()); s->kind = 1; s->p = blk(s->size = s->a->hctx); s->a->hinit(s->p); }
        else if (!strcmp(t, "HR")) { s->a->hinit(s->p); }
        else if (!strcmp(t, "HK")) { size_t n; u8 *b = unhex(tok(), &n); u8 *c = blk(n); if (n) memcpy(c, b, n); s->a->hkey(s->p, b, n); if (n && memcmp(b, c, n)) printf("KEY-CHANGED "); free(c); free(b); }
        else if (!strcmp(t, "HU")) { size_t n; u8 *b = unhex(tok(), &n); u8 *c = blk(n); if (n) memcpy(c, b, n); s->a->hupdate(s->p, b, n); if (n && memcmp(b, c, n)) printf("INPUT-CHANGED "); free(c); free(b); }
        else if (!strcmp(t, "HD")) { u8 *o = blk(s->a->out); s->a->hdigest(s->p, o); put(o, s->a->out); putchar(' '); free(o); }
        else if (!strcmp(t, "BI")) { free(s->p); s->a = 0; s->p = blk(s->size = sizeof(struct pgfe_blowfish_ctx)); size_t n; u8 *b = unhex(tok(), &n); pgfe_blowfish_init(s->p, b, n); free(b); }
        else if (!strcmp(t, "BP")) { free(s->p); s->a = 0; s->p = blk(s->size = sizeof(struct pgfe_blowfish_ctx)); size_t n; u8 *b = unhex(tok(), &n); memcpy(s->p, b, n < s->size ? n : s->size); free(b); }
        else if (!strcmp(t, "BX")) { put(s->p, s->size); putchar(' '); }
        else if (!strcmp(t, "BE") || !strcmp(t, "BD")) {
            pgfe_fake_uint64_t *u = blk(sizeof *u); char *x = tok(); uint64_t v = strtoull(x, 0, 16); u->left = v >> 32; u->right = v; 
            u8 *c = blk(s->size); memcpy(c, s->p, s->size);
            (t[1] == 'E' ? pgfe_blowfish_encrypt_unit : pgfe_blowfish_decrypt_unit)(s->p, u); printf("%08x%08x ", u->left, u->right);
            if (memcmp(c, s->p, s->size)) printf("CTX-CHANGED "); free(c); free(u); }
        else if (!strcmp(t, "BB") || !strcmp(t, "BC")) { /* buffer encrypt/decrypt, mode 0 separate 1 in place */
            int inp = num(); size_t n; u8 *b = unhex(tok(), &n); size_t m = (n + 7) / 8 * 8, r; u8 *c = blk(s->size); memcpy(c, s->p, s->size);
            if (inp) { u8 *o = blk(m); if (n) memcpy(o, b, n); r = (t[1] == 'B' ? pgfe_blowfish_encrypt : pgfe_blowfish_decrypt)(s->p, o, n, o); printf("%zu:", r); put(o, m); free(o); }
            else { u8 *o = blk(m), *d = blk(n); if (n) memcpy(d, b, n); r = (t[1] == 'B' ? pgfe_blowfish_encrypt : pgfe_blowfish_decrypt)(s->p, b, n, o); printf("%zu:", r); put(o, m); if (n && memcmp(d, b, n)) printf(" INPUT-CHANGED"); free(o); free(d); }
            putchar(' '); if (memcmp(c, s->p, s->size)) printf("CTX-CHANGED "); free(c); free(b); }
        else if (!strcmp(t, "OH")) { struct alg *a = alg(tok()); size_t k, n; u8 *kb = unhex(tok(), &k), *b = unhex(tok(), &n), *p = blk(a->out); a->hmac(kb, k, b, n, p); put(p, a->out); putchar(' '); free(kb); free(b); free(p); }
        else if (!strcmp(t, "OO")) { struct alg *a = alg(tok()); size_t n; u8 *b = unhex(tok(), &n); uint64_t c = num(); unsigned d = num(); printf("%u ", pgfe_hotp_generic(a->choice, b, n, c, d)); free(b); }
        else if (!strcmp(t, "OE")) { size_t n; u8 *b = unhex(tok(), &n); size_t m = (n + 2) / 3 * 4 + 1; char *o = blk(m); pgfe_encode_base64(b, n, o); put((u8 *)o, m - 1); putchar(' '); free(b); free(o); }
        else { fprintf(stderr, "bad op %s\n", t); exit(77); }
    }
    for (int i = 0; i < 16; i++) { free(slots[i].p); slots[i].p = 0; }
}
static size_t maxenc(size_t unit, size_t chunk, size_t n) { return (n + unit - 1) / unit * chunk; }

static void one(char *line) {
        char *t;
        if (!(t = strtok(line, " \n"))) return;
        if (!strcmp(t, "S")) script();
        else if (!strcmp(t, "enc")) { struct alg *a = alg(tok()); size_t n; u8 *b = unhex(tok(), &n); size_t o = a->xof ? num() : a->out; u8 *p = blk(o); if (a->xof) a->encx(b, n, p, o * 8); else a->enc(b, n, p); put(p, o); free(b); free(p); }
        else if (!strcmp(t, "encd")) { struct alg *a = alg(tok()); u8 *b = unhexz(tok()); size_t o = a->xof ? num() : a->out; u8 *p = blk(o); if (a->xof) a->encdx(b, p, o * 8); else a->encd(b, p); put(p, o); free(b); free(p); }
        else if (!strcmp(t, "encf")) { /* file content, start offset */
            struct alg *a = alg(tok()); size_t n; u8 *b = unhex(tok(), &n); size_t off = num(); int mode = num(); size_t o = a->xof ? num() : a->out; u8 *p = blk(o); FILE *f;
            if (mode) { int fd[2]; if (pipe(fd)) exit(77); if (!fork()) { close(fd[0]); size_t i = 0; while (i < n) { size_t k = n - i < 100 ? n - i : 100; if (write(fd[1], b + i, k) < 0) break; i += k; usleep(200); } _exit(0); } close(fd[1]); f = fdopen(fd[0], "r"); for (size_t i = 0; i < off; i++) fgetc(f); }
            else { f = tmpfile(); if (!f) exit(77); fwrite(b, 1, n, f); fseek(f, off, SEEK_SET); }
            if (a->xof) a->encfx(f, p, o * 8); else a->encf(f, p); put(p, o); printf(" eof=%d", fgetc(f) == EOF); fclose(f); free(b); free(p); }
        else if (!strcmp(t, "encm")) { struct alg *a = alg(tok()); size_t o = a->xof ? num() : a->out; size_t c = num(), n[8] = {0}; u8 *b[8] = {0}; if (c > 8) exit(77);
            for (size_t i = 0; i < c; i++) { char *x = tok(); if (*x == 'N' && x[1]) { b[i] = 0; n[i] = strtoull(x + 1, 0, 0); } else b[i] = unhex(x, n + i); }
            u8 *p = blk(o);
#define ARGS b[0], n[0], b[1], n[1], b[2], n[2], b[3], n[3], b[4], n[4], b[5], n[5], b[6], n[6], b[7], n[7]
            if (a->xof) a->encmx(p, o * 8, c, ARGS); else a->encm(p, c, ARGS);
            put(p, o); for (size_t i = 0; i < c; i++) free(b[i]); free(p); }
        else if (!strcmp(t, "encmn")) {       /* N arguments that repeat c given parts */
            struct alg *a = alg(tok()); size_t o = a->xof ? num() : a->out; size_t N = num(), c = num(), n[8] = {0}; u8 *b[8] = {0}; if (c > 8 || !c || N > 640) exit(77);
            for (size_t i = 0; i < c; i++) { char *x = tok(); if (*x == 'N' && x[1]) { b[i] = 0; n[i] = strtoull(x + 1, 0, 0); } else b[i] = unhex(x, n + i); }
            u8 *p = blk(o);
#define R1(i) b[(i) % c], n[(i) % c]
#define R4(i) R1(i), R1((i) + 1), R1((i) + 2), R1((i) + 3)
#define R16(i) R4(i), R4((i) + 4), R4((i) + 8), R4((i) + 12)
#define R64(i) R16(i), R16((i) + 16), R16((i) + 32), R16((i) + 48)
#define RALL R64(0), R64(64), R64(128), R64(192), R64(256), R64(320), R64(384), R64(448), R64(512), R64(576)
            if (a->xof) a->encmx(p, o * 8, N, RALL); else a->encm(p, N, RALL);
            put(p, o); for (size_t i = 0; i < c; i++) free(b[i]); free(p); }
        else if (!strcmp(t, "hmac") || !strcmp(t, "hmacg")) { struct alg *a = alg(tok()); size_t k, n; u8 *kb = unhex(tok(), &k), *b = unhex(tok(), &n); u8 *p = blk(a->out);
            if (t[4]) pgfe_hmac(a->choice, kb, k, b, n, p); else a->hmac(kb, k, b, n, p); put(p, a->out); free(kb); free(b); free(p); }
        else if (!strcmp(t, "hotp")) { /* variant alg secret counter digits */
            int v = num(); struct alg *a = alg(tok()); size_t n; u8 *b = unhex(tok(), &n); uint64_t c = num(); unsigned d = num(); uint32_t r;
            r = v == 0 ? pgfe_hotp_generic(a->choice, b, n, c, d) : v == 1 ? pgfe_hotp(b, n, c, d) : v == 4 ? pgfe_hotp_4digits(b, n, c) : v == 6 ? pgfe_hotp_6digits(b, n, c) : pgfe_hotp_8digits(b, n, c);
            printf("%u", r); free(b); }
        else if (!strcmp(t, "totp")) { /* variant alg secret now interval initial digits usedelta */
            int v = num(); struct alg *a = alg(tok()); size_t n; u8 *b = unhex(tok(), &n); fake_now = (time_t)strtoll(tok(), 0, 0); uint32_t iv = num(); time_t init = (time_t)strtoll(tok(), 0, 0); unsigned d = num(); int ud = num();
            pgfe_totp_delta_t *dl = ud ? blk(sizeof *dl) : 0; uint32_t r; use_fake = 1;
            r = v == 0 ? pgfe_totp_generic(a->choice, b, n, d, iv, init, dl) : v == 1 ? pgfe_totp(b, n, d, iv, dl) : v == 4 ? pgfe_totp_4digits(b, n, iv, dl) : v == 6 ? pgfe_totp_6digits(b, n, iv, dl) : pgfe_totp_8digits(b, n, iv, dl);
            printf("%u", r); if (dl) printf(" %d", *dl); free(dl); free(b); }
        else if (!strcmp(t, "be")) { /* base encode */
            char *k = tok(); size_t n; u8 *b = unhex(tok(), &n); size_t m = k[0] == '1' ? maxenc(1, 2, n) : k[0] == '3' ? maxenc(5, 8, n) : maxenc(3, 4, n); char *o = blk(m + 1); size_t r;
            r = !strcmp(k, "16") ? pgfe_encode_base16(b, n, o) : !strcmp(k, "32") ? pgfe_encode_base32(b, n, o) : !strcmp(k, "32h") ? pgfe_encode_base32hex(b, n, o) : !strcmp(k, "64") ? pgfe_encode_base64(b, n, o) : pgfe_encode_base64_url(b, n, o);
            printf("%zu ", r); put((u8 *)o, m + 1); free(b); free(o); }
        else if (!strcmp(t, "bd")) { /* base decode: text, capacity */
            char *k = tok(); u8 *b = unhexz(tok()); size_t m = num(); u8 *o = blk(m); size_t r;
            r = !strcmp(k, "16") ? pgfe_decode_base16((char *)b, o) : !strcmp(k, "32") ? pgfe_decode_base32((char *)b, o) : !strcmp(k, "32h") ? pgfe_decode_base32hex((char *)b, o) : pgfe_decode_base64((char *)b, o);
            printf("%zu ", r); put(o, r < m ? r : m); free(b); free(o); }
        else if (!strcmp(t, "tohex")) { size_t n; u8 *b = unhex(tok(), &n); char *o = blk(2 * n + 1); size_t r = pgfe_hash_to_hex_string(b, n, o); printf("%zu ", r); put((u8 *)o, 2 * n + 1); free(b); free(o); }
        else if (!strcmp(t, "fromhex")) { u8 *b = unhexz(tok()); size_t m = num(); u8 *o = blk(m); size_t r = pgfe_hex_string_to_hash((char *)b, o); printf("%zu ", r); put(o, r < m ? r : m); free(b); free(o); }
        else if (!strcmp(t, "clean")) { int inp = num(); u8 *b = unhexz(tok()); size_t m = num(); char *o = blk(m); size_t r = inp ? pgfe_hash_string_clean_((char *)b) : pgfe_hash_string_clean((char *)b, o); printf("%zu ", r); put(inp ? b : (u8 *)o, r + 1); free(b); free(o); }
        else if (!strcmp(t, "hlen")) { u8 *b = unhexz(tok()); printf("%zu", pgfe_hash_length((char *)b)); free(b); }
        else if (!strcmp(t, "hlenz")) { size_t n = num(); char *b = malloc(n + 1); memset(b, 'a', n); b[n] = 0; printf("%zu", pgfe_hash_length(b)); free(b); }
        else if (!strcmp(t, "info")) { struct alg *a = alg(tok()); printf("%zu %zu %zu", a->ctx, a->out, a->block); }
        else { fprintf(stderr, "bad command %s\n", t); exit(77); }
}
static void *thread(void *a) { char *l = strdup(a); junk = 0xa5; use_fake = 0; for (int i = 0; i < 3; i++) { strcpy(l, a); one(l); } free(l); return 0; }
int main(void) {
    static char *line; size_t cap = 0;
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    while (getline(&line, &cap, stdin) > 0) {
        junk = 0xa5; use_fake = 0;
        if (!strncmp(line, "T ", 2)) { /* the command in two threads, each with contexts and buffers of its own (for the thread sanitizer; the output is not meaningful) */
            pthread_t a, b; if (pthread_create(&a, 0, thread, line + 2) || pthread_create(&b, 0, thread, line + 2)) exit(77);
            pthread_join(a, 0); pthread_join(b, 0); }
        else one(line);
        putchar('\n'); fflush(stdout);
    }
    return 0;
}
