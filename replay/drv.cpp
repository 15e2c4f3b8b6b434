/* Replay driver for the C++ part of the library: one command per line on stdin, one result line on stdout.
   S op op ... : operations on object slots; byte strings are hexadecimal, "-" is the empty one.
   Objects live in exactly sized heap blocks filled with junk before construction; forms: b bytes, c C string, s std::string, d data object. */
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>
#include <memory>
#include <thread>
#include <csignal>
#include <unistd.h>
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/exceptions.hpp"
#include "libpgfe/generic.hpp"
#include "libpgfe/utils.hpp"
using namespace libpgfe;
typedef unsigned char u8;
static time_t fake_now; static bool use_fake;
extern "C" time_t time(time_t *t) { time_t v; if (use_fake) v = fake_now; else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }

/* allocation failures on request: the n-th allocation of the calling thread throws */
static thread_local long fail_at = -1;
#if !__has_feature(thread_sanitizer)
static void *get(size_t n) { if (fail_at >= 0 && fail_at-- == 0) throw std::bad_alloc(); void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
static void stuck(int) { fflush(stdout); static const char m[] = "DEADLOCK\n"; if (write(1, m, sizeof m - 1)) {} _exit(98); }
static int junk = 0xa5;
static char *tok() { char *t = strtok(0, " \n"); if (!t) { fprintf(stderr, "missing argument\n"); exit(77); } return t; }
static long long num() { return (long long)strtoull(tok(), 0, 0); }
static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static std::string unhex(const char *s) { std::string r; if (!strcmp(s, "-")) return r; for (; *s; s += 2) r.push_back((char)(hv(s[0]) * 16 + hv(s[1]))); return r; }
static void put(const void *q, size_t n) { const u8 *p = (const u8 *)q; if (!n) putchar('-'); for (size_t i = 0; i < n; i++) printf("%02x", p[i]); putchar(' '); }
/* exactly sized copies, so that the sanitizer sees any access beyond them */
struct Arg {
    char form; std::string v; u8 *b = 0; char *c = 0; std::unique_ptr<std::string> s; std::unique_ptr<SequentialData> d;
    Arg(char f, const std::string &x) : form(f), v(x) {
        b = (u8 *)malloc(v.size() ? v.size() : 1); memcpy(b, v.data(), v.size()); if (v.empty()) { free(b); b = (u8 *)malloc(0); }
        c = (char *)malloc(v.size() + 1); memcpy(c, v.c_str(), v.size() + 1);
        s.reset(new std::string(v)); s->shrink_to_fit(); d.reset(new SequentialData((const u8 *)v.data(), v.size()));
    }
    ~Arg() {
        if (memcmp(b, v.data(), v.size()) || memcmp(c, v.c_str(), v.size() + 1) || *s != v || d->length() != v.size() || memcmp(d->c_str(), v.data(), v.size())) printf("INPUT-CHANGED ");
        free(b); free(c);
    }
};
struct Slot { char kind = 0; void *p = 0; } slots[8];
template <class T> static void kill_(void *p) { ((T *)p)->~T(); free(p); }
static void drop(Slot &s) {
    switch (s.kind) {
    case 'H': kill_<HashEncoder>(s.p); break; case 'M': kill_<HMACEncoder>(s.p); break; case 'B': kill_<Blowfish>(s.p); break; case 'D': kill_<SequentialData>(s.p); break;
    case '1': kill_<Base16>(s.p); break; case '3': kill_<Base32>(s.p); break; case '6': kill_<Base64>(s.p); break; case 'O': kill_<HOTP>(s.p); break; case 'T': kill_<TOTP>(s.p); break; }
    s.kind = 0; s.p = 0;
}
static void *room(size_t n) { void *p = malloc(n); if (!p) exit(77); memset(p, junk, n); return p; }
#define FORM(a, call) (a.form == 'b' ? call(a.b, a.v.size()) : a.form == 'c' ? call(a.c) : a.form == 's' ? call(*a.s) : call(*a.d))
#define NEW(T, ...) (new (room(sizeof(T))) T(__VA_ARGS__))
static AbstractBaseEncoding *base(Slot &s) { return s.kind == '1' ? (AbstractBaseEncoding *)(Base16 *)s.p : s.kind == '3' ? (AbstractBaseEncoding *)(Base32 *)s.p : (AbstractBaseEncoding *)(Base64 *)s.p; }
static void show(const SequentialData &d) { put(d.c_str(), d.length()); }
static void op(const char *t) {
    if (!strcmp(t, "J")) { junk = num(); return; }
    if (!strcmp(t, "AN")) { char f_ = *tok(); Arg a(f_, unhex(tok())); pgfe_algorithm_choice r = a.form == 'c' ? _algstr(a.c) : a.form == 'u' ? operator"" _pgfe_alg(a.c, a.v.size()) : _algstr(*a.s); printf("%d ", (int)r); return; }
    if (!strcmp(t, "AL")) { pgfe_algorithm_choice a = (pgfe_algorithm_choice)num(); printf("%zu %zu ", pgfe_digest_length.at(a), pgfe_block_length.at(a)); return; }
    Slot &s = slots[num() & 7];
    if (!strcmp(t, "K")) drop(s);
    else if (!strcmp(t, "HE")) { drop(s); s.p = NEW(HashEncoder, (pgfe_algorithm_choice)num()); s.kind = 'H'; HashEncoder *h = (HashEncoder *)s.p; printf("%zu/%zu ", h->digest_size(), h->block_size()); }
    else if (!strcmp(t, "HU")) { char f_ = *tok(); Arg a(f_, unhex(tok())); HashEncoder *h = (HashEncoder *)s.p; FORM(a, h->update); }
    else if (!strcmp(t, "HR")) ((HashEncoder *)s.p)->reset();
    else if (!strcmp(t, "HG")) { char *x = tok(); HashEncoder *h = (HashEncoder *)s.p; const SequentialData *d = *x == '.' ? h->get_digest() : h->get_digest(strtoull(x, 0, 0)); show(*d); }
    else if (!strcmp(t, "HB")) { AbstractEncoder *e = s.kind == 'H' ? (AbstractEncoder *)(HashEncoder *)s.p : (AbstractEncoder *)(HMACEncoder *)s.p; const SequentialData *d = e->get_digest(); if (d) show(*d); else printf("null "); }
    else if (!strcmp(t, "HV")) { AbstractEncoder *e = (HashEncoder *)s.p; e->reset(); }
    else if (!strcmp(t, "HW")) { char f_ = *tok(); Arg a(f_, unhex(tok())); AbstractEncoder *h = s.kind == 'H' ? (AbstractEncoder *)(HashEncoder *)s.p : (AbstractEncoder *)(HMACEncoder *)s.p; FORM(a, h->update); }
    else if (!strcmp(t, "HL")) { HashEncoder *h = (HashEncoder *)s.p; const SequentialData *d = h->get_digest(strtoull(tok(), 0, 0)); size_t n = d->length(); unsigned c = 5381; for (size_t i = 0; i < n; i++) c = c * 33 + (*d)[i]; printf("%zu:%08x ", n, c); }
    else if (!strcmp(t, "ME")) { drop(s); pgfe_algorithm_choice al = (pgfe_algorithm_choice)num(); char f_ = *tok(); Arg a(f_, unhex(tok()));
        s.p = a.form == 'b' ? NEW(HMACEncoder, al, a.b, a.v.size()) : a.form == 'c' ? NEW(HMACEncoder, al, a.c) : a.form == 's' ? NEW(HMACEncoder, al, *a.s) : NEW(HMACEncoder, al, *a.d); s.kind = 'M';
        HMACEncoder *m = (HMACEncoder *)s.p; printf("%zu/%zu ", m->digest_size(), m->block_size()); }
    else if (!strcmp(t, "MU")) { char f_ = *tok(); Arg a(f_, unhex(tok())); HMACEncoder *h = (HMACEncoder *)s.p; FORM(a, h->update); }
    else if (!strcmp(t, "MG")) { HMACEncoder *h = (HMACEncoder *)s.p; show(*h->get_digest()); }
    else if (!strcmp(t, "BN")) { drop(s); char f_ = *tok(); Arg a(f_, unhex(tok())); s.p = a.form == 'b' ? NEW(Blowfish, a.b, a.v.size()) : a.form == 'c' ? NEW(Blowfish, a.c) : a.form == 's' ? NEW(Blowfish, *a.s) : NEW(Blowfish, *a.d); s.kind = 'B'; }
    else if (!strcmp(t, "BE")) { char f_ = *tok(); Arg a(f_, unhex(tok())); Blowfish *h = (Blowfish *)s.p; SequentialData r = FORM(a, h->encrypt); show(r); }
    else if (!strcmp(t, "BD")) { char f_ = *tok(); Arg a(f_, unhex(tok())); Blowfish *h = (Blowfish *)s.p; SequentialData r = FORM(a, h->decrypt); show(r); }
    else if (!strcmp(t, "DN")) { drop(s); char f_ = *tok(); Arg a(f_, unhex(tok())); s.p = a.form == 'b' ? NEW(SequentialData, a.b, a.v.size()) : a.form == 'c' ? NEW(SequentialData, (const char *)a.c) : a.form == 's' ? NEW(SequentialData, *a.s) : a.form == 'e' ? NEW(SequentialData) : NEW(SequentialData, *a.d); s.kind = 'D'; }
    else if (!strcmp(t, "DC")) { /* copy of slot j: c reference, p pointer, m move of a copy */
        Slot &o = slots[num() & 7]; char f = *tok(); SequentialData *q = (SequentialData *)o.p; drop(s);
        if (f == 'c') s.p = NEW(SequentialData, *q); else if (f == 'p') s.p = NEW(SequentialData, (const SequentialData *)q); else { SequentialData x(*q); s.p = NEW(SequentialData, std::move(x)); } s.kind = 'D'; }
    else if (!strcmp(t, "DS")) { SequentialData *d = (SequentialData *)s.p; show(*d); }
    else if (!strcmp(t, "DF")) { drop(s); char f_ = *tok(); Arg a(f_, unhex(tok())); s.p = a.form == 'b' ? utils::to_sequential_data(a.b, a.v.size()) : a.form == 'c' ? utils::to_sequential_data(a.c) : a.form == 's' ? utils::to_sequential_data(*a.s) : a.form == 'x' ? utils::sequential_data::from_hex_string(a.c) : utils::sequential_data::from_hex_string(*a.s);
        SequentialData *d = (SequentialData *)s.p; show(*d); delete d; s.p = 0; }
    else if (!strcmp(t, "DT")) { char *m = tok(); SequentialData *d = (SequentialData *)s.p;
        if (!strcmp(m, "trim")) { auto r = d->trim(); show(r); } else if (!strcmp(m, "left")) { auto r = d->trim_left(); show(r); } else if (!strcmp(m, "right")) { auto r = d->trim_right(); show(r); }
        else if (!strcmp(m, "trim_")) d->trim_(); else if (!strcmp(m, "left_")) d->trim_left_(); else if (!strcmp(m, "right_")) d->trim_right_();
        else if (!strcmp(m, "str")) { std::string x = d->to_str(); put(x.data(), x.size()); } else if (!strcmp(m, "str0")) { std::string x = d->to_str(false); put(x.data(), x.size()); }
        else if (!strcmp(m, "hex")) { std::string x = d->hex_str(); put(x.data(), x.size()); }
        else if (!strcmp(m, "hexn")) { std::string x = d->hex_str(); unsigned c = 5381; for (char y : x) c = c * 33 + (u8)y; printf("%zu:%08x ", x.size(), c); }
        else if (!strcmp(m, "seq")) put(d->to_pgfe_seq(), d->length()); else { size_t n = 77; const u8 *p = d->to_pgfe_seq(n); put(p, n); } }
    else if (!strcmp(t, "DZ")) { drop(s); size_t n = num(); std::vector<u8> v(n); for (size_t i = 0; i < n; i++) v[i] = (u8)(i * 7 + (i >> 8) * 3 + (i >> 20)); s.p = NEW(SequentialData, v.data(), n); s.kind = 'D'; }
    else if (!strcmp(t, "DX")) { size_t n = num(); std::string v(n, 'a'); SequentialData *d = utils::sequential_data::from_hex_string(v); printf("%zu ", d->length()); delete d; }
    else if (!strcmp(t, "EN")) { drop(s); char *k = tok(); if (!strcmp(k, "16")) { s.p = NEW(Base16); } else if (k[0] == '3') { s.p = NEW(Base32, k[2] == 'h'); } else { s.p = NEW(Base64, k[2] == 'u'); } s.kind = k[0];
        AbstractBaseEncoding *e = base(s); printf("%d/%d/%d/%d ", e->unit_size(), e->chunk_size(), e->bit_size(), e->alphabet_size()); }
    else if (!strcmp(t, "EE")) { char f_ = *tok(); Arg a(f_, unhex(tok())); AbstractBaseEncoding *e = base(s); std::string r = FORM(a, e->encode); put(r.data(), r.size()); }
    else if (!strcmp(t, "ED")) { char f_ = *tok(); Arg a(f_, unhex(tok())); AbstractBaseEncoding *e = base(s); SequentialData r = a.form == 's' ? e->decode(*a.s) : e->decode(a.c); show(r); }
    else if (!strcmp(t, "ON")) { drop(s); pgfe_algorithm_choice al = (pgfe_algorithm_choice)num(); char f_ = *tok(); Arg a(f_, unhex(tok()));
        s.p = a.form == 'e' ? NEW(HOTP, al) : a.form == 'b' ? NEW(HOTP, a.b, a.v.size(), al) : a.form == 'c' ? NEW(HOTP, a.c, al) : a.form == 's' ? NEW(HOTP, *a.s, al) : NEW(HOTP, *a.d, al); s.kind = 'O'; }
    else if (!strcmp(t, "TN")) { drop(s); pgfe_algorithm_choice al = (pgfe_algorithm_choice)num(); uint32_t iv = num(); char f_ = *tok(); Arg a(f_, unhex(tok()));
        s.p = a.form == 'e' ? NEW(TOTP, iv, al) : a.form == 'b' ? NEW(TOTP, a.b, a.v.size(), iv, al) : a.form == 'c' ? NEW(TOTP, a.c, iv, al) : a.form == 's' ? NEW(TOTP, *a.s, iv, al) : NEW(TOTP, *a.d, iv, al); s.kind = 'T'; }
    else if (!strcmp(t, "OS")) { int b32 = num(); char f_ = *tok(); Arg a(f_, unhex(tok())); HOTP *h = s.kind == 'O' ? (HOTP *)s.p : (HOTP *)(TOTP *)s.p;
        if (b32 == 2) { if (a.form == 'c') h->set_secret_from_base32(a.c); else h->set_secret_from_base32(*a.s); } else if (b32) { if (a.form == 'c') h->set_secret(a.c, true); else h->set_secret(*a.s, true); }
        else if (a.form == 'b') h->set_secret(a.b, a.v.size()); else if (a.form == 'c') h->set_secret(a.c); else if (a.form == 's') h->set_secret(*a.s); else h->set_secret(*a.d); }
    else if (!strcmp(t, "OC")) ((HOTP *)s.p)->set_counter(num());
    else if (!strcmp(t, "OG")) { unsigned d = num(); printf("%u ", ((HOTP *)s.p)->generate(d)); }
    else if (!strcmp(t, "OT")) { unsigned d = num(); std::string r = ((HOTP *)s.p)->generate_str(d); printf("%s ", r.c_str()); }
    else if (!strcmp(t, "TS")) { TOTP *h = (TOTP *)s.p; h->set_interval(num()); printf("%u ", (unsigned)h->interval()); }
    else if (!strcmp(t, "TI")) { TOTP *h = (TOTP *)s.p; h->set_initial_time((time_t)num()); printf("%lld ", (long long)h->initial_time()); }
    else if (!strcmp(t, "TC")) { fake_now = (time_t)num(); use_fake = true; }
    else if (!strcmp(t, "TG")) { unsigned d = num(); printf("%u ", ((TOTP *)s.p)->generate(d)); }
    else if (!strcmp(t, "TT")) { unsigned d = num(); std::string r = ((TOTP *)s.p)->generate_str(d); printf("%s ", r.c_str()); }
    else if (!strcmp(t, "TA")) { unsigned d = num(); printf("%u ", ((AbstractOTP *)(TOTP *)s.p)->generate(d)); }
    else if (!strcmp(t, "TB")) { unsigned d = num(); std::string r = ((AbstractOTP *)(TOTP *)s.p)->generate_str(d); printf("%s ", r.c_str()); }
    else if (!strcmp(t, "TK")) ((TOTP *)s.p)->set_counter(num());
    else if (!strcmp(t, "OA")) { unsigned d = num(); printf("%u ", ((AbstractOTP *)(HOTP *)s.p)->generate(d)); }
    else if (!strcmp(t, "OB")) { unsigned d = num(); std::string r = ((AbstractOTP *)(HOTP *)s.p)->generate_str(d); printf("%s ", r.c_str()); }
    else if (!strcmp(t, "TR")) printf("%lld ", (long long)((TOTP *)s.p)->remaining_time());
    else if (!strcmp(t, "TU")) printf("%lld ", (long long)((TOTP *)s.p)->update_time());
    else if (!strcmp(t, "PE")) { /* threads: kind n rounds : encode and decode concurrently on one object, each call checked against a private object */
        AbstractBaseEncoding *e = base(s); int nt = num(), rounds = num(); std::vector<std::thread> ts; std::vector<int> bad(nt, 0); std::string seed = unhex(tok());
        std::vector<std::string> ins, outs; for (int i = 0; i < nt; i++) { std::string x; for (int k = 0; k <= i * 40; k++) x += seed[k % seed.size()] ^ (char)(i + k); ins.push_back(x); outs.push_back(e->encode(x)); }
        for (int i = 0; i < nt; i++) ts.emplace_back([&, i] { for (int r = 0; r < rounds; r++) { if (e->encode(ins[i]) != outs[i]) bad[i]++; SequentialData d = e->decode(outs[i]); if (d.length() != ins[i].size() || memcmp(d.c_str(), ins[i].data(), ins[i].size())) bad[i]++; } });
        for (auto &x : ts) x.join(); int b = 0; for (int x : bad) b += x; printf("%d ", b); }
    else if (!strcmp(t, "PF")) { /* E or D, size: every allocation of one call fails in turn; afterwards the object still serves other threads */
        AbstractBaseEncoding *e = base(s); bool dec = *tok() == 'D'; int n = num(); std::string x, y; for (int i = 0; i < n; i++) { x += (char)(i * 7 + 1); y += (char)(i * 5 + 3); }
        e->encode(y);
        signal(SIGALRM, stuck); alarm(8); int fails = 0, bad = 0;
        for (int k = 0; k < 60; k++) { bool thrown = false;
            std::string big = x, tb; while (k && big.size() < (size_t)(n + 40 * k)) big += (char)(big.size() * 3 + k); if (dec) tb = e->encode(big); char *m = (char *)malloc(tb.size() + 1); memcpy(m, tb.c_str(), tb.size() + 1);
            std::thread([&] { try { fail_at = k % 4; if (dec) { SequentialData r = e->decode(m); } else { std::string r = e->encode((const u8 *)big.data(), big.size()); } } catch (std::bad_alloc &) { thrown = true; } fail_at = -1; }).join(); free(m);
            fails += thrown;
            std::thread([&] { for (size_t l : {(size_t)0, x.size() / 2, x.size(), big.size()}) { std::string z = big.substr(0, l), tz = e->encode(z); SequentialData d = e->decode(tz); if (d.length() != l || memcmp(d.c_str(), z.data(), l)) bad++; } }).join(); }
        alarm(0); printf("%s/%d ", fails ? "failed" : "never-failed", bad); }
    else { fprintf(stderr, "bad op %s\n", t); exit(77); }
}
int main() {
    static char *line; size_t cap = 0; char *t;
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    while (getline(&line, &cap, stdin) > 0) {
        junk = 0xa5; use_fake = false;
        if ((t = strtok(line, " \n")) && !strcmp(t, "S")) {
            while ((t = strtok(0, " \n"))) {
                std::string o = t;
                try { op(o.c_str()); }
                catch (NotInitializedException &) { printf("throw:not-initialized "); }
                catch (std::out_of_range &) { printf("throw:out-of-range "); }
                catch (std::exception &e) { printf("throw:exception "); }
            }
            for (auto &s : slots) drop(s);
        }
        else if (t) { fprintf(stderr, "bad command %s\n", t); exit(77); }
        putchar('\n'); fflush(stdout);
    }
    return 0;
}
