"""Independent reference implementations (Python) used only to replay failed obligations on the real code."""
import hashlib, hmac as _hmac, base64, struct

HASHES = {"md5": (16, 64), "sha1": (20, 64), "sha224": (28, 64), "sha256": (32, 64), "sha384": (48, 128), "sha512": (64, 128), "sha512_224": (28, 128), "sha512_256": (32, 128),
          "sha3_224": (28, 144), "sha3_256": (32, 136), "sha3_384": (48, 104), "sha3_512": (64, 72)}
XOFS = {"rawshake128": (168, 0x07, 128), "shake128": (168, 0x1f, 128), "rawshake256": (136, 0x07, 256), "shake256": (136, 0x1f, 256)}
M64 = (1 << 64) - 1
_RC = []
def _rc():
    if _RC: return _RC
    r = 1
    for i in range(24):
        v = 0
        for j in range(7):
            if r & 1: v |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        _RC.append(v)
    return _RC
_ROT = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]]
def keccak_f(A):
    rol = lambda x, n: ((x << n) | (x >> (64 - n))) & M64 if n else x
    for rc in _rc():
        C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
        D = [C[(x - 1) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
        B = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5): B[y][(2 * x + 3 * y) % 5] = rol(A[x][y] ^ D[x], _ROT[x][y])
        A = [[B[x][y] ^ (~B[(x + 1) % 5][y] & M64 & B[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
        A[0][0] ^= rc
    return A
def sponge(msg, rate, suffix, outlen):
    p = bytearray(msg) + bytearray([suffix]); p += bytes(-len(p) % rate); p[-1] ^= 0x80
    A = [[0] * 5 for _ in range(5)]
    def absorb(blk):
        for i in range(rate // 8): A_[i % 5][i // 5] ^= struct.unpack_from("<Q", blk, 8 * i)[0]
    for i in range(0, len(p), rate):
        A_ = A; absorb(p[i:i + rate]); A = keccak_f(A)
    out = b""
    while True:
        out += b"".join(struct.pack("<Q", A[i % 5][i // 5]) for i in range(rate // 8))
        if len(out) >= outlen: return out[:outlen]
        A = keccak_f(A)
_names = {"sha512_224": "sha512_224", "sha512_256": "sha512_256"}
def H(alg, m):
    if alg.startswith("sha512_"):
        try: return hashlib.new(alg, m).digest()
        except ValueError: return _sha512t(alg, m)
    return getattr(hashlib, alg)(m).digest() if alg in hashlib.algorithms_guaranteed else hashlib.new(alg, m).digest()
def X(alg, m, n):
    if alg.startswith("shake"): return getattr(hashlib, alg[:5] + "_" + alg[5:])(m).digest(n)
    return sponge(m, XOFS[alg][0], XOFS[alg][1], n)
def HM(alg, k, m):
    out, blk = HASHES[alg]
    if len(k) > blk: k = H(alg, k)
    k += bytes(blk - len(k))
    return H(alg, bytes(b ^ 0x5c for b in k) + H(alg, bytes(b ^ 0x36 for b in k) + m))
def hotp(alg, secret, ctr, digits):
    h = HM(alg, secret, struct.pack(">Q", ctr)); o = h[-1] & 15
    if o + 4 > len(h): return None
    v = struct.unpack(">I", h[o:o + 4])[0] & 0x7fffffff
    return v if digits >= 10 else v % 10 ** digits
A32 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"; A32H = "0123456789ABCDEFGHIJKLMNOPQRSTUV"
A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; A64U = A64[:62] + "-_"
A16 = "0123456789ABCDEF"
BASES = {"16": (A16, 4, 2, 1), "32": (A32, 5, 8, 5), "32h": (A32H, 5, 8, 5), "64": (A64, 6, 4, 3), "64u": (A64U, 6, 4, 3)}
def benc(kind, b):
    al, bits, chunk, unit = BASES[kind]
    v = 0; n = 0; out = ""
    for i in range(0, len(b), unit):
        g = b[i:i + unit]; x = int.from_bytes(g + bytes(unit - len(g)), "big"); k = -(-8 * len(g) // bits)
        s = "".join(al[(x >> (bits * (chunk - 1 - j))) & ((1 << bits) - 1)] for j in range(k))
        out += s + "=" * (chunk - k)
    return out
def bsym(kind, c):
    """value of a text character in the decoder's alphabet, None when ignored"""
    ch = chr(c)
    if kind in ("64", "64u"):
        if ch == "-": return 62
        if ch == "_": return 63
        return A64.index(ch) if ch in A64 else None
    al = BASES[kind][0]; ch = ch.upper() if c < 128 else ch
    return al.index(ch) if ch in al else None
def bdec(kind, text):
    al, bits, chunk, unit = BASES[kind]
    v = [bsym(kind, c) for c in text]; v = [x for x in v if x is not None]
    n = 0
    for x in v: n = n << bits | x
    tot = bits * len(v); k = tot // 8
    return (n >> (tot - 8 * k)).to_bytes(k, "big") if k else b""
HEXD = b"0123456789abcdefABCDEF"

# ---------------------------------------------------------------- Blowfish
_BF = []
def _bf_tables():
    if not _BF:
        # fractional hex digits of pi, Machin's formula
        n = 18 + 1024; bits = 32 * n + 64; one = 1 << bits
        def at(x):
            t = one // x; s = t; k = 1
            while t: t //= x * x; k += 2; s += -(t // k) if k % 4 == 3 else t // k
            return s
        f = (4 * (4 * at(5) - at(239)) - 3 * one) >> 64
        _BF.extend((f >> (32 * (n - 1 - i))) & 0xffffffff for i in range(n))
    return _BF
def bf_block(P, S, l, r, rev=False):
    ks = list(P[::-1]) if rev else P
    for i in range(16):
        l ^= ks[i]; r ^= ((((S[l >> 24] + S[256 + (l >> 16 & 255)]) & 0xffffffff) ^ S[512 + (l >> 8 & 255)]) + S[768 + (l & 255)]) & 0xffffffff
        l, r = r, l
    l, r = r, l
    return l ^ ks[17], r ^ ks[16]
_bfk = {}
def bf_key(key):
    if key in _bfk: return _bfk[key]
    w = list(_bf_tables()); P, S = w[:18], w[18:]
    for i in range(18): P[i] ^= int.from_bytes(bytes(key[(4 * i + k) % len(key)] for k in range(4)), "big")
    l = r = 0
    for i in range(0, 18, 2): l, r = bf_block(P, S, l, r); P[i], P[i + 1] = l, r
    for i in range(0, 1024, 2): l, r = bf_block(P, S, l, r); S[i], S[i + 1] = l, r
    if len(_bfk) < 500: _bfk[key] = (P, S)
    return P, S
def bf_buf(key, data, dec=False):
    P, S = bf_key(key); data = data + bytes(-len(data) % 8); out = b""
    for i in range(0, len(data), 8):
        l, r = bf_block(P, S, *struct.unpack(">II", data[i:i + 8]), rev=dec); out += struct.pack(">II", l, r)
    return out
