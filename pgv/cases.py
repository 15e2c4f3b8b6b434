"""Input generators of the replay engine, one per property: batches of cases with the expected result."""
import struct
from . import ref, ir
from .replay import Case

def hx(b): return b.hex() if b else "-"
def split(rnd, m, k=None):
    """a random split into appends, some empty"""
    k = rnd.choice([1, 1, 2, 3, 4, 6]) if k is None else k
    cut = sorted(rnd.choice([0, len(m), rnd.randrange(len(m) + 1), rnd.randrange(len(m) + 1)]) for _ in range(k - 1))
    cut = [0] + cut + [len(m)]
    return [m[a:b] for a, b in zip(cut, cut[1:])]
def msg(rnd, n):
    t = rnd.random()
    if t < .1: return bytes(n)
    if t < .2: return b"\xff" * n
    if t < .3: return b"\x80" * n
    return rnd.randbytes(n)
def outsz(alg, n=None): return ref.HASHES[alg][0]
def rate(alg): return ref.HASHES[alg][1] if alg in ref.HASHES else ref.XOFS[alg][0]

def stream_case(rnd, alg, m, k=None, slot=0, junk=None):
    s = "S J %d I %d %s" % (rnd.choice([0, 0xa5, 0xff]) if junk is None else junk, slot, alg)
    for part in split(rnd, m, k): s += " U %d %s" % (slot, hx(part))
    if alg in ref.HASHES: return Case(s + " D %d" % slot, ref.H(alg, m).hex())
    r = rate(alg); outs = [rnd.choice([0, 1, 7, 8, 9, 16, 32, 64, r - 1, r, r + 1, 2 * r, 3 * r + 5, rnd.randrange(600)]) for _ in range(rnd.choice([1, 1, 2, 3]))]
    full = ref.X(alg, m, sum(outs)); w = []; p = 0
    for n in outs:
        s += " X %d %d" % (slot, n); w.append(full[p:p + n].hex() or "-"); p += n
    return Case(s, " ".join(w))
Zb = bytes((i * 7 + (i >> 8) * 3 + (i >> 20)) & 255 for i in range(1 << 12))
def zpat(n):
    import array
    # b[i] = i*7 + (i>>8)*3 + (i>>20) mod 256
    out = bytearray()
    base = [bytes((i * 7) & 255 for i in range(256))]
    rows = {}
    for blk in range((n + 255) // 256):
        k = (blk * 3 + (blk >> 12)) & 255
        if k not in rows: rows[k] = bytes((i * 7 + k) & 255 for i in range(256))
        out += rows[k]
    return bytes(out[:n])

def canon_cases(rnd, alg, n):
    """contexts as they are after very long messages: length fields, block tail and chaining words set directly (only when the
    real code keeps its context in the form the contract states, which is tested first on short messages)"""
    from .contracts import hashes as C, common
    from .spec import hashes as SP
    from . import terms as T, replay
    I = C.IMPLS[alg]; s = I.spec
    try: L = C.lay(I)
    except Exception: return []
    wn = s.ww // 8
    def enc(words, pos, tail):
        b = bytearray(rnd.randbytes(L[""]))
        for k, w in enumerate(words): b[L["state"][0] + wn * k:L["state"][0] + wn * (k + 1)] = w.to_bytes(wn, "little")
        def put(nm, v): o, z = L[nm]; b[o:o + z] = (v & ((1 << 8 * z) - 1)).to_bytes(z, "little")
        if "block_len" in I.fields: put("block_len", pos)
        else:
            z = L["len_low"][1] * 8; put("len_low", pos * 8); put("len_high", (pos * 8) >> z); put("index", pos % s.rb)
        b[L["block"][0]:L["block"][0] + len(tail)] = tail
        return bytes(b)
    def steps(words, blks):
        st = [T.const(w, s.ww) for w in words]
        for b in blks: st = s.compress(st, [T.const(x, 8) for x in b])
        return st
    # is the context kept in that form?
    exe = replay.build("c"); lines = []; wants = []
    for m in (b"", b"a" * 5, rnd.randbytes(s.rb + 3), rnd.randbytes(3 * s.rb), rnd.randbytes(2 * s.rb - 1)):
        lines.append("S I 0 %s U 0 %s BX 0" % (alg, hx(m))); wants.append(m)
    out, err = replay.run_lines(exe, lines)
    if err: return []
    for o, m in zip(out, wants):
        got = bytes.fromhex(o.strip()); k = len(m) // s.rb * s.rb
        st = [T.cval(x) for x in steps(s.iv, [m[i:i + s.rb] for i in range(0, k, s.rb)])]
        e = enc(st, len(m), m[k:])
        for f in I.fields:
            a, z = L[f]
            if f == "block": z = len(m) - k
            if f == "state": z = wn * s.nw
            if got[a:a + z] != e[a:a + z]: return []
    cs = []
    for _ in range(n):
        top = 61 if s.posw == 64 else 125
        e = rnd.choice([28, 29, 30, 31, 32, 33, 35, 45, top - 1, top - 2] + ([60, 61, 62, 64, 93] if s.posw > 64 else []))
        pos = (1 << e) * rnd.choice([1, 1, 2, 3, rnd.randrange(1, 99)]) + rnd.choice([-1, -2, 0, 1, -9, -64, -s.rb, 5, -s.lb, s.rb - s.lb, rnd.randrange(-300, 300)])
        if not 0 <= pos < (1 << top) - 4096: continue
        words = [rnd.getrandbits(s.ww) for _ in range(s.nw)]; tail = rnd.randbytes(pos % s.rb)
        add = [rnd.randbytes(rnd.choice([0, 1, 2, 8, 9, s.rb - 1, s.rb, s.rb + 1, rnd.randrange(300)])) for _ in range(rnd.choice([1, 2]))]
        m = tail + b"".join(add); k = len(m) // s.rb * s.rb; total = pos + sum(map(len, add))
        st = steps(words, [m[i:i + s.rb] for i in range(0, k, s.rb)])
        for b in s.padded([T.const(x, 8) for x in m[k:]], T.const(8 * total, 8 * s.lb)): st = s.compress(st, b)
        want = bytes(T.cval(x) for x in s.outbytes(st))
        cs.append(Case("S P 0 %s %s" % (alg, enc(words, pos, tail).hex()) + "".join(" U 0 " + hx(a) for a in add) + " D 0", want.hex(),
                       what="context as it stands after %d bytes, then %s bytes appended" % (pos, "+".join(str(len(a)) for a in add))))
    return cs

def g_hash(algs, big=()):
    def gen(rnd):
        for alg in algs:
            r = rate(alg)
            yield [stream_case(rnd, alg, msg(rnd, n), 1) for n in list(range(0, 2 * r + 20))]
        for alg in algs:
            r = rate(alg)
            ns = [0, 1, r - 9, r - 8, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1, 3 * r]
            yield [stream_case(rnd, alg, msg(rnd, rnd.choice(ns + [rnd.randrange(0, 5 * r)]))) for _ in range(300)]
        for alg in algs:
            yield [stream_case(rnd, alg, msg(rnd, rnd.randrange(5000, 70000)), rnd.choice([1, 2, 3])) for _ in range(16)]
            # repeated use of one context, null arguments, junk in the output buffers
            cs = []
            for _ in range(40):
                if alg not in ref.HASHES: continue
                a, b = msg(rnd, rnd.randrange(300)), msg(rnd, rnd.randrange(300))
                cs.append(Case("S I 0 %s U 0 %s D 0 R 0 U 0 %s D 0" % (alg, hx(a), hx(b)), ref.H(alg, a).hex() + " " + ref.H(alg, b).hex()))
            if cs: yield cs
        for alg in algs:
            if alg in big:
                cs = canon_cases(rnd, alg, 60)
                if cs: yield cs
        for alg in algs:
            for n in ((1 << 16) + 5, (1 << 20) + 77):
                z = zpat(n); k = rnd.randrange(n)
                if alg in ref.HASHES: yield [Case("S I 0 %s Z 0 %d D 0" % (alg, n), ref.H(alg, z).hex(), plain=True)]
                elif alg.startswith("shake"): yield [Case("S I 0 %s Z 0 %d X 0 32" % (alg, n), ref.X(alg, z, 32).hex(), plain=True)]
        for n in ((1 << 29) - 3, (1 << 29) + 70):
            z = zpat(n)
            for alg in algs:
                if alg in ref.HASHES: yield [Case("S I 0 %s Z 0 %d D 0" % (alg, n), ref.H(alg, z).hex(), plain=True)]
                elif alg.startswith("shake"): yield [Case("S I 0 %s Z 0 %d X 0 32" % (alg, n), ref.X(alg, z, 32).hex(), plain=True)]
            del z
        while True:
            for alg in algs:
                yield [stream_case(rnd, alg, msg(rnd, rnd.randrange(0, 1500))) for _ in range(200)]
                if alg in big:
                    cs = canon_cases(rnd, alg, 60)
                    if cs: yield cs
    return gen
GENS = {}
GENS["H01"] = g_hash(["md5"], ["md5"])
GENS["H02"] = g_hash(["sha1"], ["sha1"])
GENS["H03"] = g_hash(["sha224", "sha256"], ["sha224", "sha256"])
GENS["H04"] = g_hash(["sha384", "sha512", "sha512_224", "sha512_256"], ["sha384", "sha512", "sha512_224", "sha512_256"])
GENS["H05"] = g_hash(["sha3_224", "sha3_256", "sha3_384", "sha3_512"])
GENS["H06"] = g_hash(["rawshake128", "shake128", "rawshake256", "shake256"])

# ---------------------------------------------------------------- Blowfish
def bkey(rnd, n=None):
    n = n or rnd.choice([1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 55, 56, rnd.randrange(1, 57)])
    return rnd.choice([rnd.randbytes, rnd.randbytes, bytes, lambda k: b"\xff" * k, lambda k: b"\x80" * k])(n)
def bblk(rnd): return rnd.choice([0, (1 << 64) - 1, 1, 1 << 63, 0x80000000, rnd.getrandbits(64), rnd.getrandbits(64)])
def bf_ctx_bytes(rnd, P, S):
    from .contracts import blowfish as B
    L = B.lay(); b = bytearray(L[""])
    struct.pack_into("<18I", b, L["P"][0], *P); struct.pack_into("<1024I", b, L["S"][0], *S)
    return bytes(b)
def g_bf_cipher(rnd):
    def one(key):
        P, S = ref.bf_key(key); x = bblk(rnd); e = ref.bf_block(P, S, x >> 32, x & 0xffffffff)
        return Case("S J %d BI 0 %s BE 0 %016x" % (rnd.choice([0, 255, 0xa5]), key.hex(), x), "%08x%08x" % e)
    def sched(key):
        P, S = ref.bf_key(key)
        return Case("S BI 0 %s BX 0" % key.hex(), bf_ctx_bytes(rnd, P, S).hex())
    def arb(rnd):
        w = [rnd.choice([0, 0xffffffff, rnd.getrandbits(32), rnd.getrandbits(32)]) for _ in range(1042)]; x = bblk(rnd); e = ref.bf_block(w[:18], w[18:], x >> 32, x & 0xffffffff)
        return Case("S BP 0 %s BE 0 %016x" % (bf_ctx_bytes(rnd, w[:18], w[18:]).hex(), x), "%08x%08x" % e)
    yield [one(bkey(rnd, n)) for n in range(1, 57)]
    yield [one(rnd.randbytes(n)) for n in range(1, 57)]
    yield [sched(rnd.randbytes(n)) for n in range(1, 57)]
    while True:
        yield [one(bkey(rnd)) for _ in range(60)]
        yield [sched(bkey(rnd)) for _ in range(30)]
        yield [arb(rnd) for _ in range(60)]
GENS["B01"] = g_bf_cipher
def g_bf_inverse(rnd):
    while True: yield inverse_any(rnd)
def inverse_any(rnd):
    """whatever the cipher computes: decrypting what it encrypted gives the block back (two runs, the second from the first's output)"""
    from . import replay
    exe = replay.build("c"); cs = []
    for _ in range(20):
        w = [rnd.choice([0, 0xffffffff, rnd.getrandbits(32), rnd.getrandbits(32)]) for _ in range(1042)]
        pre = "S BP 0 " + bf_ctx_bytes(rnd, w[:18], w[18:]).hex() if rnd.random() < .5 else "S BI 0 " + bkey(rnd).hex(); x = "%016x" % bblk(rnd)
        for a, b in (("BE", "BD"), ("BD", "BE")):
            out, err = replay.run_lines(exe, ["%s %s 0 %s" % (pre, a, x)])
            if err: cs.append(Case("%s %s 0 %s" % (pre, a, x), "a block")); continue
            y = out[0].split()[0]
            cs.append(Case("%s %s 0 %s" % (pre, b, y), x, what="%s of %s's output" % (b, a)))
    return cs
GENS["B02"] = g_bf_inverse
def g_bf_buffer(rnd):
    def one(key, data, dec, inp):
        out = ref.bf_buf(key, data, dec)
        return Case("S J %d BI 0 %s %s 0 %d %s" % (rnd.choice([0, 255, 0xa5]), key.hex(), "BC" if dec else "BB", inp, hx(data)), "%d:%s" % (len(out), hx(out)))
    key = rnd.randbytes(9)
    for inp in (0, 1): yield [one(key, rnd.randbytes(n), dec, inp) for n in range(60) for dec in (False, True)]
    yield [one(bkey(rnd), msg(rnd, n), dec, inp) for n in range(40) for dec in (False, True) for inp in (0, 1)]
    for n in ((1 << 16) - 3, 1 << 16, (1 << 16) + 9): yield [one(key, rnd.randbytes(n), dec, inp) for dec in (False, True) for inp in (0, 1)]
    while True:
        yield [one(bkey(rnd), msg(rnd, rnd.randrange(600)), rnd.random() < .5, rnd.randrange(2)) for _ in range(60)]
GENS["B03"] = g_bf_buffer

# ---------------------------------------------------------------- front ends
ALLALGS = list(ref.HASHES) + list(ref.XOFS)
def want_hash(alg, m, o): return (ref.H(alg, m) if alg in ref.HASHES else ref.X(alg, m, o)).hex() or "-"
def fe_case(rnd, alg, kind, n=None):
    o = 0 if alg in ref.HASHES else rnd.choice([0, 1, 16, 32, 64, 167, 168, 169, 400]); oa = "" if alg in ref.HASHES else " %d" % o
    n = n if n is not None else rnd.choice([0, 1, rate(alg) - 1, rate(alg), rate(alg) + 1, rnd.randrange(400)])
    if kind == "enc": m = msg(rnd, n); return Case("enc %s %s%s" % (alg, hx(m), oa), want_hash(alg, m, o))
    if kind == "encd": m = bytes(1 + rnd.randrange(255) for _ in range(n)); return Case("encd %s %s%s" % (alg, hx(m), oa), want_hash(alg, m, o))
    if kind == "encf":
        m = msg(rnd, n); off = rnd.choice([0, 0, n, rnd.randrange(n + 1)]); mode = 0
        if rnd.random() < .1: mode = 1; off = 0
        return Case("encf %s %s %d %d%s" % (alg, hx(m), off, mode, oa), want_hash(alg, m[off:], o) + " eof=1")
    c = rnd.choice([0, 1, 2, 2, 3, 4, 5, 6, 7, 8]); ps = []; m = b""; vs = []
    if kind == "encmn": c = rnd.randrange(1, 9)
    for _ in range(c):
        t = rnd.random()
        if t < .25: ps.append("N%d" % rnd.choice([1, 5, 64])); vs.append(b"")
        else:
            x = msg(rnd, rnd.choice([0, 0, 1, 3, rate(alg), rnd.randrange(200)])); ps.append(hx(x)); m += x; vs.append(x)
    if kind == "encmn":
        N = rnd.choice([9, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 300, 511, 512, 640, rnd.randrange(9, 640)])
        return Case("encmn %s%s %d %d %s" % (alg, oa, N, c, " ".join(ps)), want_hash(alg, b"".join(vs[i % c] for i in range(N)), o))
    return Case("encm %s%s %d %s" % (alg, oa, c, " ".join(ps)), want_hash(alg, m, o))
def g_front(rnd):
    for k in ("enc", "encd", "encm", "encmn"): yield [fe_case(rnd, a, k) for a in ALLALGS for _ in range(12)]
    for ns in ((0, 1, 7, 1000), (1023, 1024, 1025), (2047, 2048, 2049), (4095, 4096, 4097, 5000)): yield [fe_case(rnd, a, "encf", n) for a in ALLALGS for n in ns]
    yield [fe_case(rnd, a, "encf", n + d) for a in ALLALGS for n in (512, 3072, 8192, 10240, 65536) for d in (-1, 0, 1)]
    while True:
        for k in ("enc", "encd", "encm", "encf", "encmn"): yield [fe_case(rnd, a, k, rnd.choice([None, rnd.randrange(3000), 1024 * rnd.randrange(1, 9)]) if not k.startswith("encm") else None) for a in ALLALGS for _ in range(8)]
GENS["H07"] = g_front

# ---------------------------------------------------------------- HMAC
def key_lens(alg): b = rate(alg); d = len(ref.H(alg, b"")); return [0, 1, d - 1, d, d + 1, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 5 * b]
def g_hmac(rnd):
    H = list(ref.HASHES)
    def one(alg, kl, ml, g):
        k, m = msg(rnd, kl), msg(rnd, ml)
        return Case("%s %s %s %s" % ("hmacg" if g else "hmac", alg, hx(k), hx(m)), ref.HM(alg, k, m).hex())
    def stream(alg):
        out = []; w = []
        s = "S J %d HI 0 %s" % (rnd.choice([0, 255, 0xa5]), alg)
        for _ in range(rnd.choice([1, 2, 3])):
            if w and rnd.random() < .3: s += " HR 0"
            k = msg(rnd, rnd.choice(key_lens(alg) + [rnd.randrange(400)]))
            if rnd.random() < .2: s += " HK 0 %s HU 0 %s" % (hx(msg(rnd, rnd.randrange(300))), hx(msg(rnd, rnd.randrange(300))))
            m = msg(rnd, rnd.choice([0, 1, rate(alg) - 1, rate(alg), rnd.randrange(500)])); s += " HK 0 " + hx(k)
            for p in split(rnd, m): s += " HU 0 " + hx(p)
            s += " HD 0"; w.append(ref.HM(alg, k, m).hex())
        return Case(s, " ".join(w))
    for g in (0, 1): yield [one(a, kl, ml, g) for a in H for kl in key_lens(a) for ml in (0, 3, rate(a))]
    yield [stream(a) for a in H for _ in range(25)]
    for a in H: yield [one(a, n, 5, 0) for n in range(2 * rate(a) + 3)]
    while True:
        yield [one(a, rnd.randrange(400), rnd.randrange(600), rnd.randrange(2)) for a in H for _ in range(10)] + [stream(a) for a in H for _ in range(8)]
        yield [one(a, rnd.choice([70000, 65536, 5000]), rnd.randrange(70000), rnd.randrange(2)) for a in H]
GENS["M01"] = g_hmac

# ---------------------------------------------------------------- one-time codes
OTPALGS = [a for a in ref.HASHES if a != "md5"]
def ctr(rnd): return rnd.choice([0, 1, 255, 256, 1 << 31, 1 << 32, (1 << 64) - 1, (1 << 63), rnd.getrandbits(8), rnd.getrandbits(16), rnd.getrandbits(33), rnd.getrandbits(64), 1 << rnd.randrange(64)])
def secret(rnd): return msg(rnd, rnd.choice([0, 1, 10, 20, 32, 64, 65, 128, 129, rnd.randrange(300)]))
def g_hotp(rnd):
    def one(a, v=0, d=None, c=None):
        k = secret(rnd); c = ctr(rnd) if c is None else c
        if v: a = "sha1"
        d = rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 31, 255]) if d is None else d
        dd = v if v in (4, 6, 8) else d
        return Case("hotp %d %s %s %d %d" % (v, a, hx(k), c, d), str(ref.hotp(a, k, c, dd)))
    yield [one(a, 0, d) for a in OTPALGS for d in list(range(13)) + [255]]
    for v in (1, 4, 6, 8): yield [one("sha1", v) for _ in range(60)]
    yield [one(a, 0, 10) for a in OTPALGS for _ in range(60)]
    while True:
        yield [one(a, 0) for a in OTPALGS for _ in range(20)] + [one("sha1", v) for v in (1, 4, 6, 8) for _ in range(20)]
GENS["O01"] = g_hotp
def g_totp(rnd):
    def one(v=None):
        v = rnd.choice([0, 0, 1, 4, 6, 8]) if v is None else v; a = rnd.choice(OTPALGS) if v == 0 else "sha1"; k = secret(rnd); d = rnd.choice([1, 4, 6, 8, 9, 10])
        iv = rnd.choice([1, 2, 3, 7, 30, 60, 86400, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, rnd.randrange(1, 1 << 16), rnd.randrange(1, 1 << 32)])
        iv = iv % IVMAX or 1
        init = rnd.choice([0, 0, 1, 59, -1, -86400, rnd.getrandbits(31), -rnd.getrandbits(40), rnd.getrandbits(40)]) if v == 0 else 0
        off = rnd.choice([0, 1, iv - 1, iv, iv + 1, iv * rnd.randrange(1, 99), iv * rnd.randrange(1, 99) - 1, rnd.getrandbits(31), rnd.getrandbits(33), rnd.getrandbits(45), 1700000000])
        now = init + off; ud = rnd.randrange(2); dd = v if v in (4, 6, 8) else d
        w = str(ref.hotp(a, k, off // iv, dd)) + (" %d" % (iv - off % iv) if ud else "")
        return Case("totp %d %s %s %d %d %d %d %d" % (v, a, hx(k), now, iv, init, d, ud), w)
    while True: yield [one() for _ in range(200)]
IVMAX = 1 << 31
GENS["O02"] = g_totp

# ---------------------------------------------------------------- base encodings
def enc_case(kind, b):
    t = benc0(kind, b)
    return Case("be %s %s" % (kind, hx(b)), "%d %s" % (len(t), (t + b"\0").hex()))
def benc0(kind, b): return ref.benc(kind, b).encode()
def dec_case(kind, text, want=None):
    al, bits, chunk, unit = ref.BASES[kind]; sy = [c for c in text if ref.bsym(kind, c) is not None or (c == 61 and kind != "16")]; D = [i for i, c in enumerate(sy) if c == 61]
    cap = -(-len(sy) // chunk) * unit + 1
    ok = not D or (all(c == 61 for c in sy[D[0]:]) and D[0] % chunk and len(sy) <= -(-D[0] // chunk) * chunk)
    w = (ref.bdec(kind, bytes(text)) if want is None else want) if ok else None
    f = "%d %s" % (len(w), hx(w)) if ok else (lambda out: None)
    return Case("bd %s %s %d" % (kind, hx(bytes(text)), cap), f)
def g_benc(rnd):
    ks = list(ref.BASES)
    yield [enc_case(k, msg(rnd, n)) for k in ks for n in list(range(24)) + [63, 64, 65, 255, 1000]]
    yield [enc_case(k, bytes([x] * n)) for k in ks for x in range(256) for n in (1, 2, 5)]
    while True: yield [enc_case(k, msg(rnd, rnd.choice([rnd.randrange(20), rnd.randrange(300), rnd.randrange(8000)]))) for k in ks for _ in range(40)]
GENS["E01"] = g_benc
def g_bround(rnd):
    ks = list(ref.BASES)
    def one(k, b): return [enc_case(k, b), dec_case(k, benc0(k, b), b)]
    yield [c for k in ks for n in range(24) for b in (msg(rnd, n), bytes(n)) for c in one(k, b)]
    yield [c for k in ks for x in range(256) for n in (1, 2, 5) for c in one(k, bytes([x] * n))]
    while True: yield [c for k in ks for _ in range(30) for c in one(k, msg(rnd, rnd.choice([rnd.randrange(20), rnd.randrange(300), rnd.randrange(8000)])))]
GENS["E02"] = g_bround
def g_bdec(rnd):
    ks = [k for k in ref.BASES]
    def text(k, pads=True):
        al, bits, chunk, unit = ref.BASES[k]; n = rnd.choice([rnd.randrange(20), rnd.randrange(20), rnd.randrange(200)]); dens = rnd.choice([0, 0, .1, .5, .9]); out = bytearray(); seen = 0
        def ign():
            while rnd.random() < dens:
                c = rnd.choice([10, 13, 32, 9, 0x80, 0xff, rnd.randrange(1, 256)])
                if ref.bsym(k, c) is None and c != 61: out.append(c)
        for _ in range(n):
            ign(); c = ord(rnd.choice(al))
            if k[:2] in ("16", "32") and rnd.random() < .5: c = ord(chr(c).lower())
            if k[:2] == "64" and rnd.random() < .2: c = rnd.choice(b"+/-_")
            out.append(c)
        ign(); m = -n % chunk
        if k != "16" and m:
            for _ in range(rnd.choice([0, m, m, rnd.randrange(m + 1)])): out.append(61); ign()
        ign(); return bytes(out)
    def wild(k): return bytes(rnd.choice([rnd.randrange(1, 256), 61, 61, ord(rnd.choice(ref.BASES[k][0])), ord(rnd.choice(ref.BASES[k][0]))]) for _ in range(rnd.randrange(40)))
    yield [dec_case(k, bytes([c])) for k in ks for c in range(1, 256)] + [dec_case(k, b"") for k in ks]
    yield [dec_case(k, bytes([c]) * n) for k in ks for c in range(1, 256) for n in (2, 4, 7, 8)]
    while True: yield [dec_case(k, text(k)) for k in ks for _ in range(60)] + [dec_case(k, wild(k)) for k in ks for _ in range(15)]
GENS["E03"] = g_bdec

# ---------------------------------------------------------------- hexadecimal text
HEX = b"0123456789abcdefABCDEF"
def hexdig(t): return bytes(c for c in (t[2:] if len(t) > 1 and t[1] in b"xX" else t) if c in HEX)
def hexpar(t): d = hexdig(t).decode(); return bytes.fromhex("0" * (len(d) % 2) + d)
def c_tohex(b): t = b.hex().encode(); return Case("tohex %s" % hx(b), "%d %s" % (len(t), (t + b"\0").hex()))
def c_fromhex(t): w = hexpar(t); return Case("fromhex %s %d" % (hx(t), len(w)), "%d %s" % (len(w), hx(w)))
def c_clean(t, inp): d = hexdig(t); return Case("clean %d %s %d" % (inp, hx(t), len(d) + 1), "%d %s" % (len(d), (d + b"\0").hex()))
def c_hlen(t): return Case("hlen %s" % hx(t), "%d" % ((len(hexdig(t)) + 1) // 2))
def hextext(rnd):
    n = rnd.choice([rnd.randrange(8), rnd.randrange(40), rnd.randrange(40), rnd.randrange(300)]); dens = rnd.choice([0, 0, .1, .3, .8]); out = bytearray()
    pre = rnd.choice([b"", b"", b"", b"0x", b"0X", b"0x", b"ax", b"Zx", b"x", b"xx", b"0", b"0x0x", b"x0"])
    for _ in range(n): out.append(rnd.choice([58, 32, 45, 0x47, 0x67, 0x60, 0x40, 0x2f, 0xb0, 0xe1, rnd.randrange(1, 256)]) if rnd.random() < dens else rnd.choice(HEX))
    return pre + bytes(out) + rnd.choice([b"", b"", b"h", b"H"])
def hexfix():
    ts = [b""] + [bytes([c]) for c in range(1, 256)] + [bytes([48, c]) for c in range(1, 256)] + [bytes([c, x]) for c in range(1, 256) for x in b"xX"]
    return ts + [bytes([c]) + b"1" for c in range(1, 256)] + [p + b"f" * k for p in (b"", b"0x", b"0X") for k in range(20)] + [b"12" + bytes([c]) + b"345" for c in range(1, 256)]
def g_hex(rnd):
    yield [c_tohex(bytes([x])) for x in range(256)] + [c_tohex(msg(rnd, n)) for n in range(40)] + [c_tohex(msg(rnd, n)) for n in (127, 128, 129, 200, 255, 256, 257, 1000, 65536)]
    yield [c_fromhex(t) for t in hexfix()]
    while True:
        yield [c_tohex(msg(rnd, rnd.choice([rnd.randrange(20), rnd.randrange(3000)]))) for _ in range(30)] + [c_fromhex(hextext(rnd)) for _ in range(200)] + [c_fromhex(b"0x" * rnd.randrange(2) + (b.hex() if rnd.randrange(2) else b.hex().upper()).encode() + b"h" * rnd.randrange(2)) for _ in range(50) for b in [msg(rnd, rnd.randrange(300))]]
GENS["U01"] = g_hex
def g_clean(rnd):
    yield [Case("hlenz %d" % n, "%d" % ((n + 1) // 2)) for n in (1001, 10 ** 6, 19 * 10 ** 6)]
    yield [f for t in hexfix() for f in (c_clean(t, 0), c_clean(t, 1), c_hlen(t))]
    yield [f for n in (127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 65537) for t in (b"a" * n, b"0x" + b"1-" * n) for f in (c_clean(t, 0), c_clean(t, 1), c_hlen(t))]
    while True: yield [f for _ in range(100) for t in [hextext(rnd)] for f in (c_clean(t, 0), c_clean(t, 1), c_hlen(t))]
GENS["U02"] = g_clean

# ---------------------------------------------------------------- several contexts at once
def inter_case(rnd, algs=None, nops=None):
    """operations on up to 6 contexts of any kind, interleaved with one-shot calls"""
    ns = rnd.choice([2, 2, 3, 6]); st = {}; cmd = "S J %d" % rnd.choice([0, 0xa5, 0xff]); w = []
    pool = rnd.sample(list(ref.HASHES) + list(ref.XOFS) + ["hmac", "bf"], rnd.choice([1, 2, 3])) if algs is None else algs
    for _ in range(nops or rnd.randrange(6, 40)):
        k = rnd.randrange(ns); c = st.get(k)
        if c is None or rnd.random() < .08:
            t = rnd.choice(pool)
            if t == "bf": key = rnd.randbytes(rnd.randrange(1, 57)); st[k] = ["bf", key, None]; cmd += " BI %d %s" % (k, hx(key)); continue
            if t == "hmac": a = rnd.choice(list(ref.HASHES)); key = rnd.randbytes(rnd.choice([0, 5, 64, 65, 128, 129, 150, rnd.randrange(300)])); st[k] = ["hmac", a, key, b""]; cmd += " HI %d %s HK %d %s" % (k, a, k, hx(key)); continue
            st[k] = ["x" if t in ref.XOFS else "h", t, b""]; cmd += " I %d %s" % (k, t); continue
        r = rnd.random()
        if r < .1:
            o = rnd.randrange(3); a = rnd.choice([x for x in ref.HASHES if x != "md5"]); b = rnd.randbytes(rnd.randrange(40))
            if o == 0: x = rnd.randbytes(rnd.randrange(150)); cmd += " OH 0 %s %s %s" % (a, hx(x), hx(b)); w.append(ref.HM(a, x, b).hex())
            elif o == 1: n = rnd.getrandbits(40); cmd += " OO 0 %s %s %d 6" % (a, hx(b), n); w.append(str(ref.hotp(a, b, n, 6)))
            else: cmd += " OE 0 %s" % hx(b); w.append(ref.benc("64", b).encode().hex() or "-")
            continue
        b = rnd.randbytes(rnd.choice([0, 1, 3, 8, 63, 64, 65, 128, 136, rnd.randrange(300)]))
        if c[0] == "bf":
            P, S = bfctx(c)
            if rnd.random() < .7: v = rnd.getrandbits(64); d = rnd.random() < .5; l, q = ref.bf_block(P, S, v >> 32, v & 0xffffffff, d); cmd += " %s %d %016x" % ("BD" if d else "BE", k, v); w.append("%08x%08x" % (l, q))
            continue
        if c[0] == "hmac":
            if r < .8: c[3] += b; cmd += " HU %d %s" % (k, hx(b))
            else: cmd += " HD %d" % k; w.append(ref.HM(c[1], c[2], c[3]).hex()); st.pop(k); 
        elif r < .8: c[2] += b; cmd += " U %d %s" % (k, hx(b))
        elif c[0] == "h": cmd += " D %d" % k; w.append(ref.H(c[1], c[2]).hex()); st.pop(k)
        else: n = rnd.choice([1, 16, 32, 64, 200]); cmd += " X %d %d" % (k, n); w.append(ref.X(c[1], c[2], n).hex()); st.pop(k)
    for k, c in sorted(st.items()):
        if c[0] == "h": cmd += " D %d" % k; w.append(ref.H(c[1], c[2]).hex())
        elif c[0] == "x": cmd += " X %d 40" % k; w.append(ref.X(c[1], c[2], 40).hex())
        elif c[0] == "hmac": cmd += " HD %d" % k; w.append(ref.HM(c[1], c[2], c[3]).hex())
    return Case(cmd, " ".join(w))
def bfctx(c):
    if c[2] is None: c[2] = ref.bf_key(c[1])
    return c[2]
def g_par(rnd):
    """the same command in two threads, with contexts and buffers of their own: no data race"""
    cs = []
    for pid in sorted(GENS):
        if pid[0] in "HMOBEU":
            g = GENS[pid](rnd); b = [c for c in list(next(g)) + list(next(g)) if c.kind == "c" and not c.plain and len(c.cmd) < 3000 and not c.cmd.startswith("encf")]
            cs += rnd.sample(b, min(len(b), 12))
    return [Case("T " + c.cmd, lambda out: None, kind="tsanc", what="two threads with contexts of their own (thread sanitizer)") for c in cs + [inter_case(rnd) for _ in range(20)]]
def g_inter(rnd):
    yield g_par(rnd)
    for t in list(ref.HASHES) + list(ref.XOFS) + ["hmac"]: yield [inter_case(rnd, [t]) for _ in range(40)]
    while True: yield [inter_case(rnd, nops=rnd.choice([None, None, 120])) for _ in range(150)]
GENS["S01"] = g_inter
from . import cases_cxx
