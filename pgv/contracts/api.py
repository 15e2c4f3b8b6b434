"""The streaming hash functions as their callers see them, and the contracts of the front ends built on them (H07).

Callers see init/update/digest only through their contracts (proved in H01..H06).  The abstract value of a context (the
algorithm and the message absorbed so far) is recorded in the bytes of the context object itself: byte j of a context in
abstract state s is ctxb(s, j).  Copying a context copies its state; a context that anything else wrote to has no state.
A message is a list of byte segments; digest byte j of message m is the uninterpreted dg_ALG(m, j), so that two digests are
equal exactly when the messages were proved equal (same length, same byte at every index)."""
from .common import *
from .. import loops, builtins as BI
from ..builtins import AStr, nonzero

HDR = "libpgfe/hashes.h"
FIXED = {"md5": 16, "sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "sha512_224": 28, "sha512_256": 32, "sha3_224": 28, "sha3_256": 32, "sha3_384": 48, "sha3_512": 64}
BLOCK = {"md5": 64, "sha1": 64, "sha224": 64, "sha256": 64, "sha384": 128, "sha512": 128, "sha512_224": 128, "sha512_256": 128, "sha3_224": 144, "sha3_256": 136, "sha3_384": 104, "sha3_512": 72}
XOF = ("rawshake128", "shake128", "rawshake256", "shake256")
ALGS = list(FIXED) + list(XOF)
NULLOK = ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256")
def ctxsize(alg): return cexpr(HDR, {a: "sizeof(struct pgfe_%s_ctx)" % a for a in ALGS})[alg]
MAXLEN = (1 << 61) - 1

PROBE = T.var("probe", 64)
def at(t, i): return T.subst(t, {PROBE: i})
class Msg:
    __slots__ = ("segs", "id")
    tab = {}; byid = []
    def __new__(cls, segs=()):
        key = tuple(segs); m = Msg.tab.get(key)
        if m is None:
            m = object.__new__(cls); m.segs = key; m.id = len(Msg.byid); Msg.byid.append(m); Msg.tab[key] = m
        return m
    def __add__(m, seg):
        if seg is None: return m
        s = list(m.segs)
        if s:
            a = s[-1]
            if a[0] == "b" and seg[0] == "b": return Msg(s[:-1] + [("b", a[1] + seg[1])])
            if a[0] == "f" and seg[0] == "f" and at(a[1], T.add(PROBE, a[2])) is seg[1]: return Msg(s[:-1] + [("f", a[1], T.add(a[2], seg[2]))])
        return Msg(s + [seg])
    def length(m): return T.linear(0, [(1, slen(s)) for s in m.segs], 64)
    def byte(m, j):
        """byte at index j (j < length)"""
        r = None; off = c64(0); parts = []
        for s in m.segs: parts.append((off, s)); off = T.add(off, slen(s))
        for off, s in reversed(parts):
            d = T.sub(j, off)
            if s[0] == "f": v = at(s[1], d)
            else:
                v = s[1][-1]
                for k in reversed(range(len(s[1]) - 1)): v = ite(eq(d, c64(k)), s[1][k], v)
            r = v if r is None else ite(ult(d, slen(s)), v, r)
        return const(0, 8) if r is None else r
def slen(s): return c64(len(s[1])) if s[0] == "b" else s[2]
def seg_f(t, n):
    """segment of n bytes, byte function t over PROBE"""
    if T.isc(n) and T.cval(n) == 0: return None
    if T.isc(n) and T.cval(n) <= 512: return ("b", tuple(at(t, c64(k)) for k in range(T.cval(n))))
    return ("f", t, n)
def seg_b(bs): return ("b", tuple(bs)) if bs else None
def seg_str(name, n): return seg_f(T.uf(name, 8, PROBE), n)
def msg(*segs):
    m = Msg()
    for s in segs: m = m + s
    return m

def read_seg(ex, st, p, n):
    """the n bytes at p as a segment"""
    n = st.facts.simp(n)
    if T.isc(n) and T.cval(n) == 0: return None
    c = st.content(p.obj)
    if T.isc(n) and T.cval(n) <= 512:
        return ("b", tuple(st.facts.simp(c.read(T.add(p.off, c64(k)), 1, st.dec, st.bnd)) for k in range(T.cval(n))))
    s2 = st.clone(); s2.facts.add(ult(PROBE, n))
    i = T.add(p.off, PROBE); lo = st.bnd(p.off)[0]; hi = min(st.bnd(p.off)[1] + max(st.bnd(n)[1] - 1, 0), T.mask(64))
    v = s2.content(p.obj).read(i, 1, s2.dec, lambda t: s2.bnd(t) if t is not i else (lo, hi))
    return ("f", s2.facts.simp(v), n)

def same_msg(st, A, B):
    """goals whose truth makes the byte strings A and B equal"""
    if A is B: return []
    a, b = list(A.segs), list(B.segs); out = []
    while a and b:
        x, y = a[0], b[0]
        if x == y: a.pop(0); b.pop(0); continue
        if x[0] == "b" and y[0] == "b":
            k = min(len(x[1]), len(y[1]))
            for i in range(k):
                if x[1][i] is not y[1][i]: out.append(("byte %d of a part" % i, eq(x[1][i], y[1][i])))
            a[0] = ("b", x[1][k:]); b[0] = ("b", y[1][k:])
            if not a[0][1]: a.pop(0)
            if not b[0][1]: b.pop(0)
            continue
        if x[0] == "f" and y[0] == "f" and (x[2] is y[2] or st.facts.simp(eq(x[2], y[2])) is TRUE):
            j = T.fresh("mj", 64)
            out.append(("bytes of a part", or_(not_(ult(j, x[2])), eq(at(x[1], j), at(y[1], j))))); a.pop(0); b.pop(0); continue
        break
    A, B = Msg(a), Msg(b)
    if A is not B:
        out.append(("same length", eq(A.length(), B.length())))
        j = T.fresh("mj", 64)
        out.append(("same bytes", or_(not_(ult(j, A.length())), eq(A.byte(j), B.byte(j)))))
    return out

# ------------------------------------------------------------------ abstract context states
STATES = []; _sid = {}
def sid(*key):
    i = _sid.get(key)
    if i is None: i = _sid[key] = len(STATES); STATES.append(key)
    return i
def put_ctx(st, p, size, key):
    i = const(sid(*key), 32)
    c = st.wcontent(p.obj)
    if T.isc(p.off):
        o = T.cval(p.off); c._clear(o, size)
        for j in range(size): c.cells[o + j] = (1, T.uf("ctxb", 8, i, const(j, 16)))
    else:
        c.copyin(p.off, c64(size), Content(ALam(lambda x: T.uf("ctxb", 8, i, T.trunc(x, 16)))), c64(0), st.dec, st.bnd)
def get_ctx(ex, st, p, size):
    """state key or None"""
    c = st.content(p.obj); ident = None
    for j in range(size):
        v = c.read(T.add(p.off, c64(j)), 1, st.dec, st.bnd)
        if isinstance(v, T.T) and v.op == "ite":
            v = st.facts.simp(v)
            while v.op == "ite" and ctxish(v):
                d = ex.decide(st, v.a[0])
                if d is None: ex.undecided(st); raise Fork(v.a[0])
                v = v.a[1] if d else v.a[2]
        if not isinstance(v, T.T) or v.op != "uf" or v.a[0] != "ctxb" or v.a[2] is not const(j, 16): return None
        if ident is None: ident = v.a[1]
        elif v.a[1] is not ident: return None
    return STATES[T.cval(ident)] if ident is not None else None
def ctxish(v): return any(x.op == "uf" and x.a[0] == "ctxb" for x in T.postorder([v]))
def junk_ctx(st, p, size):
    k = T.fresh("spent", 8).a[0]; c = st.wcontent(p.obj)
    for j in range(size): c.write(T.add(p.off, c64(j)), 1, T.uf(k, 8, const(j, 16)), st.bnd)

def dg(alg, m, j): return T.uf("dg_" + alg, 8, const(m.id, 32), const(j, 16))
def xo(alg, m, j): return T.uf("xo_" + alg, 8, const(m.id, 32), j)

class Api:
    """overrides for one executor; `expect`: messages the specification talks about (computed digests are identified with them
    once the messages are proved equal)"""
    def __init__(s, ex, expect=()):
        s.ex = ex; s.expect = list(expect); ex.api = s; s.files = []
    def canon(s, st, m):
        if m in s.expect: return m
        for e in s.expect:
            gs = same_msg(st, m, e)
            if all(smt.prove(st.facts, g, 20)[0] for d, g in gs):
                if not s.ex.quiet: s.ex.obls.append(("lemma", True, "z3", "the hashed message is one of the specification's (%d facts)" % len(gs), None, None))
                return e
        return m
def pre_ctx(ex, st, p, alg, what):
    z = ctxsize(alg)
    q = ex.access(st, p, c64(z), "context of " + what, True)
    if q is None: return None, None
    k = get_ctx(ex, st, q, z)
    return q, k
def o_init(alg):
    def h(ex, st, a):
        p = ex.norm_ptr(st, a[0])
        if alg in NULLOK and p.obj is None and T.isc(p.off) and T.cval(p.off) == 0: return None
        q = ex.access(st, p, c64(ctxsize(alg)), "context of %s_init" % alg, True)
        if q is not None: put_ctx(st, q, ctxsize(alg), ("abs", alg, Msg()))
        return None
    return h
def o_update(alg):
    def h(ex, st, a):
        p = ex.norm_ptr(st, a[0]); d = ex.norm_ptr(st, a[1]); n = st.facts.simp(a[2])
        if d.obj is None and not isinstance(d.obj, tuple) and alg in NULLOK and T.isc(d.off) and T.cval(d.off) == 0: return None
        q, k = pre_ctx(ex, st, p, alg, alg + "_update")
        if q is None: return None
        ok = k is not None and k[0] == "abs" and k[1] == alg
        ex.oblige(st, "pre", T.boolc(ok), "%s_update is given a context initialised for %s and not yet finished" % (alg, alg))
        if not ok: st.facts.add(FALSE); return None
        if T.isc(n) and T.cval(n) == 0: return None
        r = ex.access(st, d, n, "input of %s_update" % alg)
        if r is None: st.facts.add(FALSE); return None
        m = k[2] + read_seg(ex, st, r, n)
        ex.oblige(st, "pre", ule(m.length(), c64(MAXLEN)), "message length within the hash function's range")
        put_ctx(st, q, ctxsize(alg), ("abs", alg, m))
        return None
    return h
def o_digest(alg):
    def h(ex, st, a):
        p = ex.norm_ptr(st, a[0]); o = ex.norm_ptr(st, a[1])
        q, k = pre_ctx(ex, st, p, alg, alg + "_digest")
        if q is None: return None
        if alg in FIXED:
            ok = k is not None and k[0] == "abs" and k[1] == alg
            ex.oblige(st, "pre", T.boolc(ok), "%s_digest is given a context initialised for %s and not yet finished" % (alg, alg))
            if not ok: st.facts.add(FALSE); return None
            r = ex.access(st, o, c64(FIXED[alg]), "output of %s_digest" % alg, True)
            if r is None: st.facts.add(FALSE); return None
            m = ex.api.canon(st, k[2])
            for j in range(FIXED[alg]): st.wcontent(r.obj).write(T.add(r.off, c64(j)), 1, dg(alg, m, j), st.bnd)
            junk_ctx(st, q, ctxsize(alg))
        else:
            ok = k is not None and k[0] in ("abs", "sq") and k[1] == alg
            ex.oblige(st, "pre", T.boolc(ok), "%s_digest is given a context initialised for %s" % (alg, alg))
            bits = st.facts.simp(a[2])
            g = eq(T.ext(2, 0, bits), const(0, 3))
            ex.oblige(st, "pre", g, "a whole number of output bytes is requested")
            if not ok: st.facts.add(FALSE); return None
            n = T.zext(T.ext(63, 3, bits), 64)
            m, pos = (ex.api.canon(st, k[2]), c64(0)) if k[0] == "abs" else (k[2], k[3])
            put_ctx(st, q, ctxsize(alg), ("sq", alg, m, T.add(pos, n)))
            if T.isc(n) and T.cval(n) == 0: return None
            r = ex.access(st, o, n, "output of %s_digest" % alg, True)
            if r is None: st.facts.add(FALSE); return None
            st.wcontent(r.obj).copyin(r.off, n, Content(ALam(lambda i: xo(alg, m, i))), pos, st.dec, st.bnd)
        return None
    return h
def hash_overrides():
    ov = {}
    for alg in ALGS:
        ov["pgfe_%s_init" % alg] = o_init(alg); ov["pgfe_%s_update" % alg] = o_update(alg); ov["pgfe_%s_digest" % alg] = o_digest(alg)
    return ov
def api_executor(ctx, expect=(), more=None):
    ov = hash_overrides(); ov.update(more or {})
    ex = ctx.executor(ov); Api(ex, expect); ex.loopspec = ApiLoop()
    return ex

# ------------------------------------------------------------------ files
class FileG:
    """a file open for reading: bytes F[0..size), position in a ghost cell"""
    def __init__(f, ex, st, name="F"):
        f.F = name; f.size = T.var("filesize", 64); f.pos0 = T.var("filepos", 64)
        st.facts.add(ule(f.size, c64(1 << 60))); st.facts.add(ule(f.pos0, f.size))
        f.obj = st.new("FILE", 216, "param", ro=True); f.cell = st.new("file position", 8, "ghost")
        st.wcontent(f.cell).write(c64(0), 8, f.pos0, st.bnd); ex.api.files.append(f)
    def pos(f, st): return st.content(f.cell).read(c64(0), 8, st.dec, st.bnd)
    def set(f, st, v): st.wcontent(f.cell).write(c64(0), 8, v, st.bnd)
    def seg(f, start, n): return seg_f(T.uf(f.F, 8, T.add(start, PROBE)), n)
def fread(ex, s, a):
    """assumed contract: delivers the next min(count, rest of the file) bytes and advances; short only at the end"""
    fp = ex.norm_ptr(s, a[3]); f = next((x for x in getattr(ex.api, "files", ()) if x.obj is fp.obj), None)
    if f is None or not (T.isc(fp.off) and T.cval(fp.off) == 0): ex.oblige(s, "pre", FALSE, "fread is given the open file"); s.facts.add(FALSE); return c64(0)
    if not (T.isc(a[1]) and T.isc(a[2])): raise Unsupported("fread with a variable size")
    sz, cnt = T.cval(a[1]), T.cval(a[2]); n = sz * cnt
    if n == 0: return c64(0)
    p = ex.access(s, a[0], c64(n), "buffer of fread", True)
    pos = s.facts.simp(f.pos(s)); rem = s.facts.simp(T.sub(f.size, pos)); c = ule(c64(n), rem); d = ex.decide(s, c)
    if d is None: ex.undecided(s); raise Fork(c)
    got = c64(n) if d else rem
    if p is not None: s.wcontent(p.obj).copyin(p.off, got, Content(AUF(f.F)), pos, s.dec, s.bnd, top=None if not T.isc(p.off) else T.cval(p.off) + n)
    f.set(s, T.add(pos, got))
    return got if sz == 1 else c64(cnt) if d else T.udiv(got, c64(sz))
BI.H["fread"] = fread

class ApiLoop(loops.LoopSpec):
    """loops that feed contexts: the message grows by what the file delivered"""
    def peel(s, ex, st):
        """an argument list starts in registers: its first two parts one by one"""
        v = getattr(ex.api, "va", None)
        return 2 if v is not None and "peeled" not in st.ghost and any(f.varargs is v for f in st.frames) else 0
    def start(s, ex, st):
        out = []
        for f in ex.api.files:
            for o, c in list(st.mem.items()):
                if o.kind not in ("stack", "param", "heap"): continue
                for k, (n, v) in sorted(c.cells.items()):
                    if isinstance(v, T.T) and v.op == "uf" and v.a[0] == "ctxb" and T.isc(v.a[2]) and T.cval(v.a[2]) == 0:
                        key = STATES[T.cval(v.a[1])]
                        if key[0] == "abs": out.append(FileFam(f, o, k, key))
        v = getattr(ex.api, "va", None)
        if v is not None:
            for o, c in list(st.mem.items()):
                for k, (n, x) in sorted(c.cells.items()):
                    if o.kind == "stack" and isinstance(x, T.T) and x.op == "uf" and x.a[0] == "ctxb" and T.isc(x.a[2]) and T.cval(x.a[2]) == 0:
                        key = STATES[T.cval(x.a[1])]
                        if key[0] == "abs": out.append(VaFam(v, o, k, key, T.cval(st.ghost["peeled"]) if "peeled" in st.ghost else 0))
        return out + [loops.Family()]
class VaParts:
    """an argument list of any number of (pointer, length) parts: part k is absent (null pointer) or len(k) bytes, which are the
    bytes [before(k), before(k)+len(k)) of the concatenation C of all present parts; before(k) is the length of parts 0..k-1"""
    def __init__(v, st):
        v.count = T.zext(T.var("count", 31), 64); st.facts.add(ult(v.count, c64((1 << 31) - 2))); v.obj = st.new("parts", c64(1 << 62), "param", AUF("unreadable"), ro=True)
        v.area = st.new("va_over", T.concat(const(0, 29), T.var("count", 31), const(0, 4)), "param", VaArea(v), ro=True)
        n = T.var("count", 31)
        for k in (0, 1, 2): st.facts.add(or_(not_(eq(n, const(k, 31))), eq(v.before(n), v.before(const(k, 31)))))
        for k in (0, 1):
            for x in v.facts(const(k, 31)): st.facts.add(x)
    def word(v, j):
        """argument word j"""
        return VaArea(v).word(c64(8 * j), 8, None)
    def null(v, k): return T.uf("absent", 1, k)
    def len(v, k): return T.zext(T.uf("partlen", 61, k), 64)
    def off(v, k): return T.uf("partaddr", 64, k)
    def before(v, k):
        if T.isc(k) and T.cval(k) == 0: return c64(0)
        if T.isc(k) or (k.op == "add" and 0 < k.a[0] < 4):
            p = T.sub(k, const(1, 31))
            return ite(v.null(p), v.before(p), T.add(v.before(p), v.len(p)))
        return T.zext(T.uf("before", 61, k), 64)
    def facts(v, k):
        """the total length is at most 2^60"""
        m = c64(1 << 60)
        return [ule(v.before(k), m), or_(v.null(k), and_(ule(v.len(k), m), ule(T.add(v.before(k), v.len(k)), m)))]
class VaArea(Arr):
    def __init__(a, v): a.v = v
    def word(a, i, n, dec):
        lo = T.ext(3, 0, i)
        if n != 8 or not T.isc(lo) or T.cval(lo) not in (0, 8): return None
        k = T.ext(34, 4, i); v = a.v
        if T.cval(lo) == 8: return ite(v.null(k), T.uf("absentlen", 64, k), v.len(k))
        return PIte(v.null(k), NULL, Ptr(v.obj, v.off(k)))
    def get(a, i, dec): return T.uf("vabyte", 8, i)
def va_update(alg, v):
    plain = o_update(alg)
    def h(ex, st, a):
        d = ex.norm_ptr(st, a[1])
        if d.obj is not v.obj: return plain(ex, st, a)
        n = st.facts.simp(a[2]); off = st.facts.simp(d.off)
        ok = off.op == "uf" and off.a[0] == "partaddr"
        ex.oblige(st, "memory", T.boolc(ok), "the input is a part")
        q, key = pre_ctx(ex, st, ex.norm_ptr(st, a[0]), alg, alg + "_update")
        if q is None or not ok: st.facts.add(FALSE); return None
        good = key is not None and key[0] == "abs" and key[1] == alg
        ex.oblige(st, "pre", T.boolc(good), "%s_update is given a running context" % alg)
        if not good: st.facts.add(FALSE); return None
        k = off.a[1]
        ex.oblige(st, "memory", ule(n, v.len(k)), "reads only the part's bytes")
        put_ctx(st, q, ctxsize(alg), ("abs", alg, key[2] + seg_f(T.uf("C", 8, T.add(v.before(k), PROBE)), n)))
        return None
    return h
class VaFam(loops.Family):
    coefs = (1, 16)
    def __init__(f, v, o, off, key, k0): f.v = v; f.o = o; f.off = off; f.key = key; f.k0 = k0; f.size = ctxsize(key[1]); f.ptr = P(o, off)
    managed = property(lambda f: (f.o,))
    def fresh(f, ex, st):
        f.k = T.fresh("k", 31); f.n = T.sub(T.zext(f.k, 64), c64(f.k0))
        return f.v.facts(f.k) + [ule(const(f.k0, 31), f.k)]
    def m(f, k): return msg(seg_f(T.uf("C", 8, PROBE), f.v.before(k)))
    def apply(f, ex, st): put_ctx(st, f.ptr, f.size, ("abs", f.key[1], f.m(f.k)))
    def goals(f, ex, st, n):
        key = get_ctx(ex, st, f.ptr, f.size)
        if key is None or key[:2] != f.key[:2]: return [("context stays a running %s context" % f.key[1], FALSE)]
        out = same_msg(st, key[2], f.m(T.add(T.trunc(st.facts.simp(n), 31), const(f.k0, 31)))) or [("message fed so far", TRUE)]
        return [("message fed so far: " + d, g) for d, g in out]
    def nmax(f): return T.sub(f.v.count, c64(f.k0))
class FileFam(loops.Family):
    coefs = (1,)
    def __init__(f, file, o, off, key): f.f = file; f.o = o; f.off = off; f.key = key; f.size = ctxsize(key[1]); f.ptr = P(o, off)
    def fresh(f, ex, st):
        f.n = T.fresh("n", 64); f.p0 = f.f.pos(st)
        return [ule(f.n, T.sub(f.f.size, f.p0))]
    def m(f, n): return f.key[2] + f.f.seg(f.p0, n)
    def apply(f, ex, st): put_ctx(st, f.ptr, f.size, ("abs", f.key[1], f.m(f.n)))
    @property
    def managed(f): return (f.o,)
    def unmanaged(f, o): return [k for k in () ]
    def goals(f, ex, st, n):
        k = get_ctx(ex, st, f.ptr, f.size)
        if k is None or k[:2] != f.key[:2]: return [("context stays a running %s context" % f.key[1], FALSE)]
        n = st.facts.simp(n); out = same_msg(st, k[2], f.m(n)) or [("message fed so far", TRUE)]
        return [("message fed so far: " + d, g) for d, g in out] + [("file position", eq(f.f.pos(st), T.add(f.p0, n)))]
    def nmax(f): return T.sub(f.f.size, f.p0)

# ------------------------------------------------------------------ H07
def chk_digest(ctx, out, alg, oo, m, what, xn=None, base=0):
    """output object oo holds the digest of message m"""
    if alg in FIXED:
        for j in range(FIXED[alg]):
            v = out.content(oo).read(c64(base + j), 1, out.dec, out.bnd)
            same_dg(ctx, out, v, alg, m, const(j, 16), "%s: digest byte %d" % (what, j))
    else:
        j = T.fresh("j", 64); s2 = out.clone(); s2.facts.add(ult(j, xn))
        v = s2.content(oo).read(T.add(c64(base), j), 1, s2.dec, s2.bnd)
        ctx.oblige(s2, eq(v, xo(alg, m, j)), "%s: output byte j is byte j of the function's output" % what)
def same_dg(ctx, out, v, alg, m, j, what):
    v = out.facts.simp(v) if isinstance(v, T.T) else v
    if isinstance(v, T.T) and v.op == "uf" and v.a[0] == "dg_" + alg and v.a[2] is j:
        if T.cval(v.a[1]) == m.id: return ctx.require(True, what, "post")
        got = Msg.byid[T.cval(v.a[1])]; oks = True
        for d, g in same_msg(out, got, m): oks = ctx.oblige(out, g, "%s: the hashed message is the specified one (%s)" % (what, d)) and oks
        return oks
    return ctx.oblige(out, eq(v, dg(alg, m, T.cval(j))), what) if isinstance(v, T.T) else ctx.require(False, what)

def xlen(st, alg):
    """requested output of an extendable-output function: (byte count, extra argument list)"""
    if alg in FIXED: return c64(FIXED[alg]), []
    n = T.var("outlen", 64); st.facts.add(ule(n, c64(1 << 59)))
    return n, [T.concat(T.trunc(n, 61), const(0, 3))]
def fin(ctx, st, fn, args, alg, m, oo, xn, what, ex, varargs=None, allowed=(), file=None):
    ex.api.expect.append(m); before = snap(st)
    for out in ctx.run(ex, st, fn, args, varargs):
        chk_digest(ctx, out, alg, oo, m, what, xn)
        frame(ctx, before, out, {oo} | set(allowed), what)
        if file: ctx.oblige(out, eq(file.pos(out), file.size), what + ": the file is read to its end")
def u_encode(alg, what):
    def f(ctx):
        ex = api_executor(ctx); st = State(); fn = ctx.func("pgfe_%s_%s" % (alg, what)); xn, xa = xlen(st, alg); oo = st.new("output", xn, "param")
        if what == "encode":
            n = T.var("length", 64); st.facts.add(ule(n, c64(1 << 60))); d = st.new("data", n, "param", AUF("in"), ro=True)
            fin(ctx, st, fn, [P(d), n, P(oo)] + xa, alg, msg(seg_str("in", n)), oo, xn, fn.name, ex)
        elif what == "encode_default":
            n = T.var("length", 64); st.facts.add(ule(n, c64(1 << 60))); g = lambda i: nonzero(T.uf("in", 8, i))
            d = st.new("string", T.add(n, c64(1)), "param", AStr(g, n), ro=True)
            fin(ctx, st, fn, [P(d), P(oo)] + xa, alg, msg(seg_f(g(PROBE), n)), oo, xn, fn.name, ex)
        elif what == "encode_f":
            F = FileG(ex, st)
            fin(ctx, st, fn, [P(F.obj), P(oo)] + xa, alg, msg(F.seg(F.pos0, T.sub(F.size, F.pos0))), oo, xn, fn.name, ex, allowed={F.cell}, file=F)
    return f
def u_multiple(alg):
    def f(ctx):
        fn = ctx.func("pgfe_%s_encode_multiple" % alg); st = State(); v = VaParts(st); more = {"pgfe_%s_update" % alg: va_update(alg, v)}
        ex = api_executor(ctx, more=more); ex.api.va = v; xn, xa = xlen(st, alg); oo = st.new("output", xn, "param")
        m = msg(seg_f(T.uf("C", 8, PROBE), v.before(T.var("count", 31))))
        for x in v.facts(T.var("count", 31))[:1]: st.facts.add(x)
        fin(ctx, st, fn, [P(oo)] + xa + [v.count], alg, m, oo, xn, fn.name + " of any number of parts", ex, v)
    return f
def h07_units(prog):
    us = []
    for a in ALGS:
        for w in ("encode", "encode_default", "encode_f"): us.append(Unit("pgfe_%s_%s" % (a, w), u_encode(a, w)))
        us.append(Unit("pgfe_%s_encode_multiple" % a, u_multiple(a)))
    return us
def units(which, prog):
    return h07_units(prog) if "h07" in which else []
