"""The standards, written over bit-vector terms (RFC 1321, FIPS 180-4, FIPS 202).
Constants are computed from their mathematical definitions; selftest() runs the definitions against hashlib."""
import math
from .. import terms as T
from ..terms import const, add, bxor, band, bor, bnot, concat, ext

def rotl(x, k): return concat(ext(x.w - k - 1, 0, x), ext(x.w - 1, x.w - k, x)) if k % x.w else x
def rotr(x, k): return rotl(x, x.w - k % x.w)
def shr(x, k): return T.lshrc(x, k)

def primes(n):
    out = []; k = 2
    while len(out) < n:
        if all(k % p for p in out): out.append(k)
        k += 1
    return out
def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) >> 1
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
def frac_root(p, k, bits):
    return iroot(p << (k * bits), k) & ((1 << bits) - 1)

K256 = [frac_root(p, 3, 32) for p in primes(64)]
K512 = [frac_root(p, 3, 64) for p in primes(80)]
IV256 = [frac_root(p, 2, 32) for p in primes(8)]
IV512 = [frac_root(p, 2, 64) for p in primes(8)]
IV384 = [frac_root(p, 2, 64) for p in primes(16)[8:]]
IV224 = [v & 0xffffffff for v in IV384]
IVMD5 = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]
IVSHA1 = IVMD5 + [0xc3d2e1f0]
KMD5 = [int(abs(math.sin(i + 1)) * 2 ** 32) for i in range(64)]
SMD5 = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4

def md5_compress(st, blk):
    """st: 4 words; blk: 64 byte terms"""
    X = [concat(blk[4 * i + 3], blk[4 * i + 2], blk[4 * i + 1], blk[4 * i]) for i in range(16)]
    a, b, c, d = st
    for i in range(64):
        if i < 16: f = bor(band(b, c), band(bnot(b), d)); g = i
        elif i < 32: f = bor(band(d, b), band(bnot(d), c)); g = (5 * i + 1) % 16
        elif i < 48: f = bxor(bxor(b, c), d); g = (3 * i + 5) % 16
        else: f = bxor(c, bor(b, bnot(d))); g = (7 * i) % 16
        t = add(a, f, const(KMD5[i], 32), X[g])
        a, d, c, b = d, c, b, add(b, rotl(t, SMD5[i]))
    return [add(x, y) for x, y in zip(st, (a, b, c, d))]

def ch(x, y, z): return bxor(band(x, y), band(bnot(x), z))
def maj(x, y, z): return bxor(bxor(band(x, y), band(x, z)), band(y, z))

def sha1_compress(st, blk):
    w = [concat(*blk[4 * i:4 * i + 4]) for i in range(16)]
    for i in range(16, 80): w.append(rotl(bxor(bxor(w[i - 3], w[i - 8]), bxor(w[i - 14], w[i - 16])), 1))
    a, b, c, d, e = st
    for i in range(80):
        if i < 20: f, k = ch(b, c, d), 0x5a827999
        elif i < 40: f, k = bxor(bxor(b, c), d), 0x6ed9eba1
        elif i < 60: f, k = maj(b, c, d), 0x8f1bbcdc
        else: f, k = bxor(bxor(b, c), d), 0xca62c1d6
        t = add(rotl(a, 5), f, e, const(k, 32), w[i])
        a, b, c, d, e = t, a, rotl(b, 30), c, d
    return [add(x, y) for x, y in zip(st, (a, b, c, d, e))]

def _sha2(st, w, K, S0, S1, s0, s1, W):
    for i in range(16, len(K)):
        w.append(add(s1(w[i - 2]), w[i - 7], s0(w[i - 15]), w[i - 16]))
    a, b, c, d, e, f, g, h = st
    for i in range(len(K)):
        t1 = add(h, S1(e), ch(e, f, g), const(K[i], W), w[i])
        t2 = add(S0(a), maj(a, b, c))
        a, b, c, d, e, f, g, h = add(t1, t2), a, b, c, add(d, t1), e, f, g
    return [add(x, y) for x, y in zip(st, (a, b, c, d, e, f, g, h))]
def sha256_compress(st, blk):
    w = [concat(*blk[4 * i:4 * i + 4]) for i in range(16)]
    x3 = lambda f: f
    return _sha2(st, w, K256,
        lambda x: bxor(bxor(rotr(x, 2), rotr(x, 13)), rotr(x, 22)), lambda x: bxor(bxor(rotr(x, 6), rotr(x, 11)), rotr(x, 25)),
        lambda x: bxor(bxor(rotr(x, 7), rotr(x, 18)), shr(x, 3)), lambda x: bxor(bxor(rotr(x, 17), rotr(x, 19)), shr(x, 10)), 32)
def sha512_compress(st, blk):
    w = [concat(*blk[8 * i:8 * i + 8]) for i in range(16)]
    return _sha2(st, w, K512,
        lambda x: bxor(bxor(rotr(x, 28), rotr(x, 34)), rotr(x, 39)), lambda x: bxor(bxor(rotr(x, 14), rotr(x, 18)), rotr(x, 41)),
        lambda x: bxor(bxor(rotr(x, 1), rotr(x, 8)), shr(x, 7)), lambda x: bxor(bxor(rotr(x, 19), rotr(x, 61)), shr(x, 6)), 64)

def be(word, n): return [ext(8 * (n - 1 - i) + 7, 8 * (n - 1 - i), word) for i in range(n)]
def le(word, n): return [ext(8 * i + 7, 8 * i, word) for i in range(n)]

class MD:
    """a Merkle-Damgard hash: rb block bytes, nw state words of ww bits, lb length-field bytes, out digest bytes"""
    def __init__(s, name, rb, nw, ww, compress, iv, out, lb, little=False):
        s.name = name; s.rb = rb; s.nw = nw; s.ww = ww; s.compress = compress; s.iv = iv; s.out = out; s.lb = lb; s.little = little
        s.posw = 128 if lb == 16 else 64
    def outbytes(s, st):
        bs = []
        for w in st: bs += le(w, s.ww // 8) if s.little else be(w, s.ww // 8)
        return bs[:s.out]
    def padded(s, data, lenbits):
        """data: r < rb byte terms (the tail of the message); lenbits: term of 8*lb bits -> list of blocks"""
        r = len(data)
        L = le(lenbits, s.lb) if s.little else be(lenbits, s.lb)
        nb = 1 if r + 1 + s.lb <= s.rb else 2
        z = nb * s.rb - r - 1 - s.lb
        bs = data + [const(0x80, 8)] + [const(0, 8)] * z + L
        return [bs[i:i + s.rb] for i in range(0, len(bs), s.rb)]
    def ivt(s): return [const(v, s.ww) for v in s.iv]
    def hash(s, msg):
        """concrete evaluation of the definition"""
        st = s.ivt(); m = [const(b, 8) for b in msg]
        k = len(m) // s.rb * s.rb
        for i in range(0, k, s.rb): st = s.compress(st, m[i:i + s.rb])
        for b in s.padded(m[k:], const(8 * len(m), 8 * s.lb)): st = s.compress(st, b)
        return bytes(T.cval(x) for x in s.outbytes(st))

def _t_iv(t):
    iv0 = [v ^ 0xa5a5a5a5a5a5a5a5 for v in IV512]
    h = MD("tmp", 128, 8, 64, sha512_compress, iv0, 64, 16).hash(("SHA-512/%d" % t).encode())
    return [int.from_bytes(h[8 * i:8 * i + 8], "big") for i in range(8)]

MDS = {
    "md5": MD("md5", 64, 4, 32, md5_compress, IVMD5, 16, 8, True),
    "sha1": MD("sha1", 64, 5, 32, sha1_compress, IVSHA1, 20, 8),
    "sha224": MD("sha224", 64, 8, 32, sha256_compress, IV224, 28, 8),
    "sha256": MD("sha256", 64, 8, 32, sha256_compress, IV256, 32, 8),
    "sha384": MD("sha384", 128, 8, 64, sha512_compress, IV384, 48, 16),
    "sha512": MD("sha512", 128, 8, 64, sha512_compress, IV512, 64, 16),
    "sha512_224": MD("sha512_224", 128, 8, 64, sha512_compress, _t_iv(224), 28, 16),
    "sha512_256": MD("sha512_256", 128, 8, 64, sha512_compress, _t_iv(256), 32, 16),
}

# ------------------------------------------------------------------ Keccak-f[1600]
def _rc_bit(t):
    if t % 255 == 0: return 1
    R = [1, 0, 0, 0, 0, 0, 0, 0]
    for _ in range(t % 255):
        R = [0] + R
        R[0] ^= R[8]; R[4] ^= R[8]; R[5] ^= R[8]; R[6] ^= R[8]
        R = R[:8]
    return R[0]
RC = []
for _i in range(24):
    v = 0
    for _j in range(7):
        if _rc_bit(_j + 7 * _i): v |= 1 << ((1 << _j) - 1)
    RC.append(v)
RHO = [[0] * 5 for _ in range(5)]
_x, _y = 1, 0
for _t in range(24):
    RHO[_x][_y] = ((_t + 1) * (_t + 2) // 2) % 64
    _x, _y = _y, (2 * _x + 3 * _y) % 5

def keccak_round(A, rc):
    """A[x][y] lanes"""
    C = [bxor(bxor(bxor(A[x][0], A[x][1]), bxor(A[x][2], A[x][3])), A[x][4]) for x in range(5)]
    D = [bxor(C[(x - 1) % 5], rotl(C[(x + 1) % 5], 1)) for x in range(5)]
    A = [[bxor(A[x][y], D[x]) for y in range(5)] for x in range(5)]
    B = [[None] * 5 for _ in range(5)]
    for x in range(5):
        for y in range(5): B[y][(2 * x + 3 * y) % 5] = rotl(A[x][y], RHO[x][y])
    A = [[bxor(B[x][y], band(bnot(B[(x + 1) % 5][y]), B[(x + 2) % 5][y])) for y in range(5)] for x in range(5)]
    A[0][0] = bxor(A[0][0], const(rc, 64))
    return A
def keccak_f(A):
    for r in range(24):
        A = keccak_round(A, RC[r])
        if r < 23: A = [[T.named(v) for v in c] for c in A]
    return A

class Sponge:
    """rate in bytes, suffix bits (value, count), out: digest bytes or None (extendable)"""
    def __init__(s, name, rate, sval, sn, out): s.name = name; s.rb = rate; s.sval = sval; s.sn = sn; s.out = out
    def padded(s, data):
        """data: r < rb byte terms -> the last block (suffix and pad10*1 always fit)"""
        r = len(data)
        bs = data + [const(0, 8)] * (s.rb - r)
        bs[r] = const(s.sval | 1 << s.sn, 8)
        bs[-1] = T.bor(bs[-1], const(0x80, 8))
        return bs
    @staticmethod
    def absorb(A, blk, f):
        A = [list(c) for c in A]
        for i in range(0, len(blk), 8):
            x, y = (i // 8) % 5, (i // 8) // 5
            A[x][y] = bxor(A[x][y], concat(*reversed(blk[i:i + 8])))
        return f(A)
    def outblock(s, A):
        bs = []
        for i in range(s.rb // 8): bs += le(A[i % 5][i // 5], 8)
        return bs
    def hash(s, msg, n=None):
        n = n if n is not None else s.out
        A = [[const(0, 64)] * 5 for _ in range(5)]
        m = [const(b, 8) for b in msg]; k = len(m) // s.rb * s.rb
        for i in range(0, k, s.rb): A = s.absorb(A, m[i:i + s.rb], keccak_f)
        A = s.absorb(A, s.padded(m[k:]), keccak_f)
        out = s.outblock(A)
        while len(out) < n: A = keccak_f(A); out += s.outblock(A)
        return bytes(T.cval(x) for x in out[:n])
SPONGES = {
    "sha3_224": Sponge("sha3_224", 144, 0b10, 2, 28), "sha3_256": Sponge("sha3_256", 136, 0b10, 2, 32),
    "sha3_384": Sponge("sha3_384", 104, 0b10, 2, 48), "sha3_512": Sponge("sha3_512", 72, 0b10, 2, 64),
    "shake128": Sponge("shake128", 168, 0b1111, 4, None), "shake256": Sponge("shake256", 136, 0b1111, 4, None),
    "rawshake128": Sponge("rawshake128", 168, 0b11, 2, None), "rawshake256": Sponge("rawshake256", 136, 0b11, 2, None),
}
# FIPS 202: SHA-3 appends bits 01, i.e. first bit 0 then 1 -> little-endian value 0b10

def selftest():
    import hashlib
    bad = []
    for n in (0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 135, 136, 200):
        m = bytes((i * 7 + n) & 255 for i in range(n))
        for k, h in MDS.items():
            if h.hash(m) != hashlib.new(k, m).digest(): bad.append((k, n))
        for k, h in SPONGES.items():
            if n not in (0, 71, 72, 135, 136, 200): continue
            if k.startswith("raw"): continue
            ref = hashlib.new(k, m)
            if (h.hash(m, 300) != ref.digest(300)) if h.out is None else (h.hash(m) != ref.digest()): bad.append((k, n))
    return bad
