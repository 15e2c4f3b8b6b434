"""Input generators for the C++ classes (driver replay/drv.cpp)."""
import struct
from . import ref
from .replay import Case
from .cases import GENS, hx, msg, split
NUM = {"md5": 0, "sha1": 1, "sha224": 2, "sha256": 3, "sha384": 4, "sha512": 5, "sha512_224": 6, "sha512_256": 7, "sha3_224": 8, "sha3_256": 9, "sha3_384": 10, "sha3_512": 11, "rawshake128": 12, "shake128": 13, "rawshake256": 14, "shake256": 15}
JUNK = [0, 0xa5, 0xff]
def C(cmd, want, what=""): return Case(cmd, want, kind="cpp", what=what)
def form(rnd, b, forms="bcsd"):
    """a form that can carry the bytes"""
    f = rnd.choice([x for x in forms if x != "c" or 0 not in b]); return "%s %s" % (f, hx(b))
def data(rnd, n, z=None):
    b = bytearray(msg(rnd, n)); z = rnd.random() if z is None else z
    if z < .5: b = bytearray(x or 1 for x in b)
    return bytes(b)
def size(rnd): return rnd.choice([0, 1, 2, rnd.randrange(20), 55, 56, 63, 64, 65, 71, 72, 73, 103, 104, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 167, 168, rnd.randrange(300), rnd.randrange(1500)])
def digest(a, m, bits):
    """bits None: default request"""
    if a in ref.XOFS: n = (256 if ref.XOFS[a][2] == 128 else 512) // 8 if not bits else bits // 8; return ref.X(a, m, n)
    d = ref.H(a, m); return d if not bits or bits // 8 >= len(d) else d[:bits // 8]
def block(a): return ref.HASHES[a][1] if a in ref.HASHES else ref.XOFS[a][0]
def dsize(a): return ref.HASHES[a][0] if a in ref.HASHES else ref.XOFS[a][2] // 8 * 2
def henc_case(rnd, a, nb=None, uses=None, bits=None):
    cmd = "S J %d HE 0 %d" % (rnd.choice(JUNK), NUM[a]); w = ["%d/%d" % SZ[a]]
    for u in range(uses or rnd.choice([1, 1, 2, 3])):
        if u: cmd += rnd.choice([" HR 0", " HR 0", " HV 0"])
        m = b""
        for part in split(rnd, data(rnd, size(rnd) if nb is None else nb)): cmd += rnd.choice([" HU 0 ", " HU 0 ", " HW 0 "]) + form(rnd, part); m += part
        if u and rnd.random() < .2: cmd += " HR 0 HU 0 " + form(rnd, b"x"); m = b"x"
        q = bits if bits is not None else rnd.choice([None, None, 0, 8, 16, 64, 128, 160, 224, 256, 384, 512, 1024, 8 * rnd.randrange(1, 300), rnd.choice([1, 2, 3, 10, 100]) * 8 * block(a)])
        if q is None: cmd += rnd.choice([" HG 0 .", " HG 0 .", " HB 0"])
        else: cmd += " HG 0 %d" % q
        w.append(digest(a, m, q).hex() or "-")
    return C(cmd, " ".join(w))
SZ = {}
for _a, (_o, _b) in ref.HASHES.items(): SZ[_a] = (_o, _b)
for _a, (_r, _s, _k) in ref.XOFS.items(): SZ[_a] = (_k // 8 * 2, _r)
def chk(b):
    c = 5381
    for x in b: c = (c * 33 + x) & 0xffffffff
    return "%d:%08x" % (len(b), c)
def g_c01(rnd):
    al = list(NUM)
    yield [henc_case(rnd, a, n, 1, q) for a in al for n in (0, 3) for q in (None, 0, 8, 16, 24, 128, 160, 168, 224, 256, 264, 384, 512, 520, 1344, 1352, 2048)]
    yield [henc_case(rnd, a) for a in al for _ in range(20)]
    yield [C("S HE 0 %d HU 0 b 616263 HL 0 %d" % (NUM[a], 8 * n), "%d/%d %s" % (SZ[a] + (chk(ref.X(a, b"abc", n)),))) for a in ("shake128", "shake256") for n in (10 ** 5, 3 * 10 ** 6, 17 * 10 ** 6)]
    yield [C("S HE 0 %d HU 0 b 616263 HG 0 %d" % (NUM[a], 8 * n), "%d/%d %s" % (SZ[a] + (ref.H(a, b"abc").hex(),))) for a in ref.HASHES for n in (10 ** 8, 1 << 34)]
    while True: yield [henc_case(rnd, rnd.choice(al)) for _ in range(200)]
GENS["C01"] = g_c01
def hm_case(rnd, a, kn=None, n=None):
    b = ref.HASHES[a][1]; key = data(rnd, rnd.choice([0, 1, b - 1, b, b + 1, 2 * b, 2 * b + 1, rnd.randrange(300)]) if kn is None else kn); m = data(rnd, size(rnd) if n is None else n)
    cmd = "S J %d ME 0 %d %s" % (rnd.choice(JUNK), NUM[a], form(rnd, key))
    for part in split(rnd, m): cmd += rnd.choice([" MU 0 ", " MU 0 ", " HW 0 "]) + form(rnd, part)
    return C(cmd + rnd.choice([" MG 0", " MG 0", " HB 0"]), "%d/%d %s" % (ref.HASHES[a] + (ref.HM(a, key, m).hex(),)))
def g_c02(rnd):
    al = list(ref.HASHES)
    yield [hm_case(rnd, a, kn, n) for a in al for kn in (0, 1, 20, 64, 65, 128, 129, 144, 145, 200) for n in (0, 3, 64, 200)]
    while True: yield [hm_case(rnd, rnd.choice(al)) for _ in range(300)]
GENS["C02"] = g_c02
def bl_case(rnd, kn=None, n=None):
    key = data(rnd, rnd.randrange(1, 57) if kn is None else kn); cmd = "S J %d BN 0 %s" % (rnd.choice(JUNK), form(rnd, key)); w = []
    for _ in range(rnd.choice([1, 2, 3]) if n is None else 1):
        d = data(rnd, rnd.choice([0, 1, 7, 8, 9, 15, 16, 17, 63, 64, 65, rnd.randrange(300)]) if n is None else n); dec = rnd.random() < .5
        cmd += " %s 0 %s" % ("BD" if dec else "BE", form(rnd, d)); w.append(ref.bf_buf(key, d, dec).hex() or "-")
    return C(cmd, " ".join(w))
def g_c04(rnd):
    yield [bl_case(rnd, 8, n) for n in range(70) for _ in range(4)]
    yield [bl_case(rnd, k, 8) for k in range(1, 57) for _ in range(2)]
    yield [bl_case(rnd, 16, n) for n in (1000, 4095, 4096, 4097)]
    while True: yield [bl_case(rnd) for _ in range(60)]
GENS["C04"] = g_c04
def trimf(b, m): m = m.rstrip("_"); return b.strip(b"\0") if m == "trim" else b.lstrip(b"\0") if m == "left" else b.rstrip(b"\0")
TR = ["trim", "left", "right", "trim_", "left_", "right_"]
def sd_case(rnd, b, ops=None):
    cmd = "S J %d DN 0 %s" % (rnd.choice(JUNK), form(rnd, b)); w = []
    cur = b
    for o in ops or [rnd.choice(TR + ["str", "str0", "hex", "seq", "seqn", "copy"]) for _ in range(rnd.choice([1, 2, 4]))]:
        if o == "copy": cmd += " DC 1 0 %s DS 1" % rnd.choice("cpm"); w.append(cur.hex() or "-"); continue
        cmd += " DT 0 " + o
        if o in TR:
            r = trimf(cur, o)
            if o[-1] == "_": cur = r
            else: w.append(r.hex() or "-")
        elif o == "hex": w.append(cur.hex().encode().hex() or "-")
        else: w.append(cur.hex() or "-")
    return C(cmd + " DS 0", " ".join(w + [cur.hex() or "-"]))
def hexpar(t):
    t = t[2:] if len(t) > 1 and t[1] in b"xX" else t
    d = bytes(c for c in t if c in b"0123456789abcdefABCDEF").decode(); return bytes.fromhex("0" * (len(d) % 2) + d)
def fac_case(rnd, f, b): return C("S DF 0 %s %s" % (f, hx(b)), (hexpar(b) if f in "xy" else b).hex() or "-")
def hextext(rnd):
    dens = rnd.choice([0, 0, .2, .8]); return rnd.choice([b"", b"0x", b"0X"]) + bytes(rnd.choice(b":- gGzZ\x80\xff") if rnd.random() < dens else rnd.choice(b"0123456789abcdefABCDEF") for _ in range(rnd.choice([rnd.randrange(8), rnd.randrange(100)]))) + rnd.choice([b"", b"h"])
def g_c05(rnd):
    def zs(n): return bytes(rnd.choice([0, 0, 1, 0xff, 0x80]) for _ in range(n))
    yield [sd_case(rnd, b, [o]) for n in range(4) for k in range(4 ** n) for b in [bytes(((0, 1, 0x20, 0x80)[k >> 2 * i & 3]) for i in range(n))] for o in TR + ["hex", "str"]]
    yield [sd_case(rnd, b, [o]) for b in (bytes(20), bytes(16) + b"a" + bytes(20), b"a" + bytes(30), bytes(30) + b"a", b"a" + bytes(20) + b"b", bytes(range(256)), bytes(15), bytes(16), bytes(17)) for o in TR + ["str", "str0", "hex", "seq", "seqn", "copy"]]
    yield [fac_case(rnd, f, b) for f in "bs" for n in (0, 1, 5, 15, 16, 17, 100) for b in (zs(n), bytes(n), msg(rnd, n))] + [fac_case(rnd, "c", data(rnd, n, 0)) for n in (0, 1, 15, 16, 40)] + [fac_case(rnd, f, t) for f in "xy" for t in [b"", b"0x", b"f", b"0xf", b"1f", b"zz", b"0x0", b"abc", b"12 34", b"fh"] + [hextext(rnd) for _ in range(40)]] + [C("S DN 0 e -  DS 0", "-")]
    yield [C("S DZ 0 %d DT 0 hexn" % n, chk(zpat(n).hex().encode())) for n in (1000, 10 ** 5, 5 * 10 ** 6)] + [C("S DX 0 %d" % n, "%d" % ((n + 1) // 2)) for n in (1001, 10 ** 5, 19 * 10 ** 6)]
    while True: yield [sd_case(rnd, rnd.choice([zs, lambda n: msg(rnd, n)])(rnd.choice([rnd.randrange(8), rnd.randrange(40), rnd.randrange(300)]))) for _ in range(250)] + [fac_case(rnd, rnd.choice("xy"), hextext(rnd)) for _ in range(50)]
def zpat(n):
    from .cases import zpat as z
    return z(n)
GENS["C05"] = g_c05
ELEN = {"16": "1/2/4/16", "32": "5/8/5/32", "32h": "5/8/5/32", "64": "3/4/6/64", "64u": "3/4/6/64"}
def e_case(rnd, k, sizes=None):
    cmd = "S J %d EN 0 %s" % (rnd.choice(JUNK), k); w = [ELEN[k]]
    for n in sizes or [rnd.choice([rnd.randrange(10), rnd.randrange(200), rnd.randrange(200), rnd.randrange(3000)]) for _ in range(rnd.choice([1, 2, 4, 8]))]:
        b = data(rnd, n); t = ref.benc(k, b).encode(); r = rnd.random() if sizes is None else .3
        if r < .6: cmd += " EE 0 " + form(rnd, b); w.append(t.hex() or "-")
        if r > .2: cmd += " ED 0 " + form(rnd, t, "cs"); w.append(b.hex() or "-")
    return C(cmd, " ".join(w))
def g_c03(rnd):
    ks = list(ELEN)
    yield [e_case(rnd, k, [n]) for k in ks for n in range(0, 260)]
    yield [e_case(rnd, k, s) for k in ks for s in ([100, 3, 101, 200, 1], [60, 61, 62, 63, 64, 65, 66, 67, 68], list(range(40, 140)), list(range(140, 40, -1)), [0, 0, 1], [5000, 10, 6000, 5999])]
    while True: yield [e_case(rnd, rnd.choice(ks)) for _ in range(100)]
GENS["C03"] = g_c03
def otps(v, d): return str(v).rjust(d, "0")
OA = [a for a in ref.HASHES if a != "md5"]
def secret(rnd):
    """(forms and bytes as command arguments, secret)"""
    b = data(rnd, rnd.choice([20, 20, 0, 1, 10, 32, 64, 65, 128, 129, 144, 145, rnd.randrange(200)])); return form(rnd, b), b
def set_secret(rnd, k=0):
    if rnd.random() < .4:
        b = data(rnd, rnd.choice([0, 1, 10, 20, 32, rnd.randrange(150)])); t = ref.benc("32", b).encode()
        if rnd.random() < .3: t = t.lower()
        return " OS %d %d %s" % (k, rnd.choice([1, 2]), form(rnd, t, "cs")), b
    f, b = secret(rnd); return " OS %d 0 %s" % (k, f), b
def digs(rnd): return rnd.choice([6, 6, 8, 4, 1, 2, 3, 5, 7, 9, 10, 11, 0, 12, 20, 255, rnd.randrange(256)])
def ho_case(rnd, a=None, nops=None, d0=None):
    a = a or rnd.choice(OA); s = None; c = 0; w = []; cmd = "S J %d" % rnd.choice(JUNK)
    if rnd.random() < .2: cmd += " ON 0 %d e -" % NUM[a]
    else: f, s = secret(rnd); cmd += " ON 0 %d %s" % (NUM[a], f)
    for _ in range(nops or rnd.randrange(1, 8)):
        r = rnd.random()
        if r < .25: c = rnd.choice([0, 1, 9, rnd.getrandbits(8), rnd.getrandbits(32), 1 << 32, rnd.getrandbits(64), (1 << 64) - 1]); cmd += " OC 0 %d" % c
        elif r < .4: x, s = set_secret(rnd); cmd += x
        else:
            d = digs(rnd) if d0 is None else d0; tx = rnd.random() < .5; cmd += " %s 0 %d" % (rnd.choice("OT OT OB".split() if tx else "OG OG OA".split()), d)
            if s is None: w.append("throw:not-initialized")
            else: v = ref.hotp(a, s, c, d); w.append(otps(v, d) if tx else str(v))
    return C(cmd, " ".join(w))
def to_case(rnd, a=None, nops=None):
    a = a or rnd.choice(OA); s = None; iv = rnd.choice([30, 30, 60, 1, 7, 2 ** 31 - 1, rnd.randrange(1, 10000)]); now = rnd.choice([0, 59, 1111111109, 2000000000, 20000000000, rnd.getrandbits(33), rnd.getrandbits(45)]); init = 0; up = 0; delta = None; w = []; cmd = "S J %d TC 0 %d" % (rnd.choice(JUNK), now)
    if rnd.random() < .15: cmd += " TN 0 %d %d e -" % (NUM[a], iv)
    else: f, s = secret(rnd); cmd += " TN 0 %d %d %s" % (NUM[a], iv, f)
    for _ in range(nops or rnd.randrange(1, 10)):
        r = rnd.random()
        if r < .15: iv = rnd.choice([30, 60, 1, rnd.randrange(1, 5000)]); cmd += " TS 0 %d" % iv; w.append("%d" % iv)
        elif r < .25: init = min(now, rnd.choice([0, 1, now, rnd.randrange(now + 1)])); cmd += " TI 0 %d" % init; w.append("%d" % init)
        elif r < .45: now += rnd.choice([0, 1, 29, 30, 31, rnd.randrange(100), rnd.getrandbits(20)]); cmd += " TC 0 %d" % now
        elif r < .53: x, s = set_secret(rnd); cmd += x
        elif r < .56: cmd += " TK 0 %d" % rnd.getrandbits(rnd.choice([4, 64]))
        elif r < .65 and delta is not None: cmd += " TR 0 TU 0"; w += [str(delta - (now - up)), str(up)]
        else:
            d = digs(rnd); tx = rnd.random() < .5; cmd += " %s 0 %d" % (rnd.choice("TT TT TB".split() if tx else "TG TG TA".split()), d); up = now; delta = iv - (now - init) % iv
            if s is None: w.append("throw:not-initialized")
            else: v = ref.hotp(a, s, (now - init) // iv, d); w.append(otps(v, d) if tx else str(v))
    return C(cmd, " ".join(w))
def g_c06(rnd):
    yield [ho_case(rnd, a, 3, d) for a in OA for d in list(range(12)) + [20, 255]]
    yield [to_case(rnd, a) for a in OA for _ in range(20)]
    while True: yield [ho_case(rnd) for _ in range(150)] + [to_case(rnd) for _ in range(150)]
GENS["C06"] = g_c06
NAMES = {}
for _a in NUM:
    for _n in (_a, ("RawSHAKE" + _a[8:]) if _a.startswith("raw") else _a.upper()): NAMES[_n] = _a
def n_case(f, t):
    n = t.decode("latin-1") if f == "s" else t.split(b"\0")[0].decode("latin-1")
    return C("S AN %s %s" % (f, hx(t)), "%d" % NUM[NAMES[n]] if n in NAMES else "throw:out-of-range")
def g_c07(rnd):
    ns = sorted(NAMES)
    yield [n_case(f, n.encode()) for n in ns for f in "csu"] + [C("S AL %d" % NUM[a], "%d %d" % SZ[a]) for a in NUM]
    near = set()
    for n in ns:
        near.update([n[:-1], n + " ", " " + n, n + "\0", n + "x", n.swapcase(), n.capitalize(), n.replace("_", "-"), n.replace("_", "/"), n + "\0z", n[1:], n.replace("SHA", "Sha"), n.replace("raw", "Raw"), n + n, n.title()])
        for i in range(len(n)):
            near.update([n[:i] + n[i + 1:], n[:i] + n[i].swapcase() + n[i + 1:]])
            for c in "0123456789_aAsSh\x80 ": near.add(n[:i] + c + n[i + 1:]); near.add(n[:i] + c + n[i:])
    near.update(["", "sha", "SHA-1", "sha-256", "RAWSHAKE128", "RAWSHAKE256", "sha0", "sha2", "md4", "MD5 "])
    near = sorted(near)
    for k in range(0, len(near), 2000): yield [n_case(f, n.encode("latin-1")) for n in near[k:k + 2000] for f in "cs"]
    while True: yield [n_case(rnd.choice("csu"), rnd.randbytes(rnd.randrange(20)) if rnd.random() < .5 else bytes(rnd.choice(b"shaSHAkeKErawmd5123468_") for _ in range(rnd.randrange(14)))) for _ in range(500)]
GENS["C07"] = g_c07

def g_c08(rnd):
    """shared base encoder objects: schedules under the thread sanitizer, and allocation failures inside a call"""
    def par(k, nt, rounds): return Case("S EN 0 %s PE 0 %d %d %s" % (k, nt, rounds, hx(data(rnd, rnd.randrange(1, 40), .3))), ELEN[k] + " 0", kind="tsan", what="concurrent encode and decode on one object")
    ks = list(ELEN)
    yield [C("S EN 0 %s PF 0 %s %d" % (k, d, n), ELEN[k] + " failed/0", "allocation failure inside a call") for k in ks for d in "ED" for n in (1, 40, 300)]
    yield [par(k, nt, 12) for k in ks for nt in (2, 4)]
    yield [C("S EN 0 %s PE 0 %d %d %s" % (k, nt, 400, hx(data(rnd, 30, .3))), ELEN[k] + " 0", "concurrent encode and decode on one object") for k in ks for nt in (2, 8)]
    while True: yield [par(rnd.choice(ks), rnd.choice([2, 3, 4, 8]), rnd.choice([5, 30])) for _ in range(10)]
GENS["C08"] = g_c08
