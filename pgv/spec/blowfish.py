"""Blowfish as published (Schneier 1993) over bit-vector terms; the tables are computed as the fractional hex digits of pi."""
from .. import terms as T
from ..terms import const, add, bxor, ext

def pi_frac_words(n):
    bits = 32 * n + 64
    one = 1 << bits
    def atan_inv(x):
        t = one // x; s = t; k = 1; x2 = x * x
        while t:
            t //= x2; k += 2
            s += -(t // k) if k % 4 == 3 else t // k
        return s
    pi = 4 * (4 * atan_inv(5) - atan_inv(239))
    f = (pi - 3 * one) >> 64
    return [(f >> (32 * (n - 1 - i))) & 0xffffffff for i in range(n)]
_w = None
def tables():
    global _w
    if _w is None: _w = pi_frac_words(18 + 1024)
    return _w[:18], _w[18:]

def F(S, x):
    """S: function (row, 8-bit term) -> 32-bit term"""
    a, b, c, d = ext(31, 24, x), ext(23, 16, x), ext(15, 8, x), ext(7, 0, x)
    return add(bxor(add(S(0, a), S(1, b)), S(2, c)), S(3, d))
def encrypt(P, S, l, r):
    for i in range(16):
        l = bxor(l, P[i]); r = bxor(F(S, l), r); l, r = r, l
    l, r = r, l
    return bxor(l, P[17]), bxor(r, P[16])
def decrypt(P, S, l, r): return encrypt(P[::-1], S, l, r)

def key_words(key):
    """18 words of the cyclically repeated key; key: list of byte terms"""
    return [T.concat(*[key[(4 * i + k) % len(key)] for k in range(4)]) for i in range(18)]
def schedule(key, enc):
    """enc(words[1042], l, r) -> (l, r); returns the 1042 subkey words"""
    p0, s0 = tables()
    w = [bxor(const(p, 32), k) for p, k in zip(p0, key_words(key))] + [const(x, 32) for x in s0]
    l = r = const(0, 32)
    for i in range(0, 18 + 1024, 2):
        l, r = enc(w, l, r)
        w[i], w[i + 1] = l, r
    return w
