"""Assumed contracts of the C library and compiler intrinsics the library calls."""
from . import terms as T, smt
from .terms import const, eq, ne, ite, not_, and_, or_, ult, ule, mask, TRUE, FALSE
from .mem import *
from .exec import Throw, Unsupported, Fork

H = {}
def builtin(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d

def lookup(name):
    h = H.get(name)
    if h: return h
    for p, h in PREF:
        if name.startswith(p): return h
    return None

def nop(ex, s, a): return None
def memcpy(ex, s, a): ex.memcpy(s, a[0], a[1], a[2]); return a[0]
def memmove(ex, s, a): ex.memcpy(s, a[0], a[1], a[2], move=True); return a[0]
def memset(ex, s, a): ex.memset(s, a[0], a[1] if a[1].w == 8 else T.trunc(a[1], 8), a[2]); return a[0]
H["memcpy"] = memcpy; H["memmove"] = memmove; H["memset"] = memset
def umax(ex, s, a): return ite(ult(a[0], a[1]), a[1], a[0])
def umin(ex, s, a): return ite(ult(a[0], a[1]), a[0], a[1])
def smax(ex, s, a): return ite(T.slt(a[0], a[1]), a[1], a[0])
def smin(ex, s, a): return ite(T.slt(a[0], a[1]), a[0], a[1])
def fshl(ex, s, a):
    if not T.isc(a[2]): raise Unsupported("fshl")
    w = a[0].w; k = T.cval(a[2]) % w
    return a[0] if k == 0 else T.ext(2 * w - 1 - k, w - k, T.concat(a[0], a[1]))
def fshr(ex, s, a):
    if not T.isc(a[2]): raise Unsupported("fshr")
    w = a[0].w; k = T.cval(a[2]) % w
    return T.ext(w - 1 + k, k, T.concat(a[0], a[1]))
def bswap(ex, s, a):
    w = a[0].w
    return T.concat(*[T.ext(i + 7, i, a[0]) for i in range(0, w, 8)])
def umul_ov(ex, s, a):
    w = a[0].w
    p = T.mul(T.zext(a[0], 2 * w), T.zext(a[1], 2 * w))
    return (T.trunc(p, w), ne(T.ext(2 * w - 1, w, p), const(0, w)))
def uadd_ov(ex, s, a):
    w = a[0].w
    p = T.add(T.zext(a[0], w + 1), T.zext(a[1], w + 1))
    return (T.trunc(p, w), T.ext(w, w, p))
def trap(ex, s, a):
    ex.oblige(s, "safety", FALSE, "trap reached"); return None
def assume(ex, s, a): return None
def absv(ex, s, a): return ite(T.slt(a[0], const(0, a[0].w)), T.neg(a[0]), a[0])
PREF = [("llvm.memcpy", memcpy), ("llvm.memmove", memmove), ("llvm.memset", memset), ("llvm.lifetime", nop),
        ("llvm.dbg", nop), ("llvm.va_end", nop), ("llvm.stackrestore", nop), ("llvm.experimental.noalias", nop),
        ("llvm.umax", umax), ("llvm.umin", umin), ("llvm.smax", smax), ("llvm.smin", smin), ("llvm.fshl", fshl), ("llvm.fshr", fshr),
        ("llvm.bswap", bswap), ("llvm.umul.with.overflow", umul_ov), ("llvm.uadd.with.overflow", uadd_ov), ("llvm.trap", trap),
        ("llvm.assume", nop), ("llvm.abs", absv)]

@builtin("llvm.ceil.f64", "ceil")
def fceil(ex, s, a): return Dbl(("ceil", a[0]))
@builtin("llvm.floor.f64", "floor")
def ffloor(ex, s, a): return Dbl(("floor", a[0]))
@builtin("llvm.stacksave", "llvm.stacksave.p0")
def stacksave(ex, s, a): return Ptr(None, T.fresh("sp", 64))

@builtin("llvm.expect.i1", "llvm.expect.i64", "llvm.expect.i32")
def expect(ex, s, a): return a[0]

# ---------------------------------------------------------------- C strings
class AStr(Arr):
    """bytes of a C string: bytes f(i) made nonzero for i < n, 0 at n, `after` beyond"""
    def __init__(self, f, n, after=None): self.f = f; self.n = n; self.after = after
    def get(self, i, dec):
        c = ult(i, self.n); v = dec(c)
        if v is True: return self.f(i)
        r = const(0, 8)
        if self.after is not None:
            e = eq(i, self.n); d = dec(e)
            if d is False: r = self.after(i)
            elif d is None: r = ite(e, const(0, 8), self.after(i))
        if v is False: return r
        return ite(c, self.f(i), r)
def nonzero(t):
    """a function ranging over exactly the nonzero bytes"""
    return ite(eq(t, const(0, 8)), const(1, 8), t)

def cstr_len(ex, s, p):
    """length of the C string at p"""
    p = ex.norm_ptr(s, p)
    if p.obj is None or isinstance(p.obj, tuple):
        ex.oblige(s, "memory", FALSE, "strlen of an invalid pointer"); return T.fresh("badlen", 64)
    if p.obj in s.dead: ex.oblige(s, "memory", FALSE, "strlen of freed memory")
    c = s.content(p.obj)
    if isinstance(c.base, AStr) and not c.cells:
        ex.access(s, p, c64(1), "strlen")
        ex.oblige(s, "memory", ule(p.off, c.base.n), "strlen stays within the string")
        return T.sub(c.base.n, p.off)
    # a string some bytes of which were written again: the end it had, when that is still the first zero byte
    b = c.base
    while isinstance(b, (AStore, ACells)) or isinstance(b, ACopy): b = b.src if isinstance(b, ACopy) and T.isc(b.dst) and T.cval(b.dst) == 0 and T.isc(b.soff) and T.cval(b.soff) == 0 else b.base
    if isinstance(b, AStr):
        L = b.n; x = s.clone(); j = T.zext(T.fresh("j", 62), 64); x.facts.add(ule(p.off, j)); x.facts.add(ult(j, L))
        if smt.prove(s.facts, and_(ule(p.off, L), ult(L, p.obj.size), eq(c.read(L, 1, s.dec, s.bnd), const(0, 8))))[0] and (x.facts.false or smt.prove(x.facts, ne(x.content(p.obj).read(j, 1, x.dec, x.bnd), const(0, 8)))[0]):
            ex.access(s, p, c64(1), "strlen")
            if not ex.quiet: ex.obls.append(("lemma", True, "z3", "strlen: the first zero byte", None, None))
            return T.sub(L, p.off)
    # scan
    k = 0
    while k < 4096:
        q = ex.access(s, Ptr(p.obj, T.add(p.off, c64(k))), c64(1), "strlen")
        if q is None: return T.fresh("badlen", 64)
        b = s.content(q.obj).read(q.off, 1, s.dec, s.bnd)
        z = eq(b, const(0, 8))
        v = ex.decide(s, z)
        if v is None: raise Fork(z)
        if v: return c64(k)
        k += 1
    raise Unsupported("strlen")

@builtin("strlen")
def strlen(ex, s, a): return cstr_len(ex, s, a[0])

@builtin("memcmp")
def memcmp(ex, s, a):
    n = a[2]
    if T.isc(n) and T.cval(n) == 0: return const(0, 32)
    p = ex.access(s, a[0], n, "memcmp"); q = ex.access(s, a[1], n, "memcmp")
    if not T.isc(n) or T.cval(n) > 64: return T.fresh("memcmp", 32)
    r = const(0, 32)
    for k in reversed(range(T.cval(n))):
        x = s.content(p.obj).read(T.add(p.off, c64(k)), 1, s.dec, s.bnd); y = s.content(q.obj).read(T.add(q.off, c64(k)), 1, s.dec, s.bnd)
        r = ite(eq(x, y), r, ite(ult(x, y), const(mask(32), 32), const(1, 32)))
    return r

# ---------------------------------------------------------------- stdio
def hexdigit(n):
    """4-bit term -> ascii of the lower-case digit"""
    d = T.zext(n, 8)
    return ite(ult(d, const(10, 8)), T.add(d, const(48, 8)), T.add(d, const(87, 8)))

@builtin("sprintf")
def sprintf(ex, s, a):
    f = ex.norm_ptr(s, a[1]); c = s.content(f.obj)
    fmt = b""
    for k in range(64):
        b = c.read(T.add(f.off, c64(k)), 1, s.dec, s.bnd)
        if not T.isc(b): raise Unsupported("sprintf format")
        if T.cval(b) == 0: break
        fmt += bytes([T.cval(b)])
    if fmt not in (b"%02x", b"%02X"): raise Unsupported("sprintf format %r" % fmt)
    v = a[2]
    if ex.decide(s, ult(v, const(256, v.w))) is not True: raise Unsupported("sprintf of a wide value")
    v = T.trunc(v, 8)
    p = ex.access(s, a[0], c64(3), "sprintf output", True)
    if p is None: return const(2, 32)
    up = fmt == b"%02X"
    for k, nib in enumerate((T.ext(7, 4, v), T.ext(3, 0, v))):
        ch = hexdigit(nib)
        if up: ch = ite(ult(T.zext(nib, 8), const(10, 8)), T.add(T.zext(nib, 8), const(48, 8)), T.add(T.zext(nib, 8), const(55, 8)))
        s.wcontent(p.obj).write(T.add(p.off, c64(k)), 1, ch, s.bnd)
    s.wcontent(p.obj).write(T.add(p.off, c64(2)), 1, const(0, 8), s.bnd)
    return const(2, 32)

@builtin("printf")
def printf(ex, s, a): return T.fresh("printf", 32)

# ---------------------------------------------------------------- variadic arguments (System V x86-64)
@builtin("llvm.va_start", "llvm.va_start.p0")
def va_start(ex, s, a):
    fr = s.frames[-1]; mod = fr.fn.mod
    nfix = sum(1 for _, t in fr.fn.params if mod.resolve(t)[0] in ("i", "ptr"))
    va = fr.varargs or []
    if hasattr(va, "area"):
        # an argument list of unknown length: its first words in the register slots left, the rest in memory
        p = ex.norm_ptr(s, a[0]); w = s.wcontent(p.obj); o = T.cval(p.off)
        reg = s.new("va_reg", 176, "stack"); fr.locals = fr.locals + [reg]; k = min(nfix, 6)
        for j in range(6 - k): s.wcontent(reg).write(c64(8 * (k + j)), 8, va.word(j), s.bnd)
        w.write(c64(o), 4, const(8 * k, 32), s.bnd); w.write(c64(o + 4), 4, const(48, 32), s.bnd)
        w.write(c64(o + 8), 8, Ptr(va.area, c64(8 * (6 - k))), s.bnd); w.write(c64(o + 16), 8, Ptr(reg, c64(0)), s.bnd)
        return None
    reg = s.new("va_reg", 176, "stack"); fr.locals = fr.locals + [reg]
    ovn = max(0, nfix - 6) * 0
    k = nfix; over = []
    for t, v in va:
        t = mod.resolve(t)
        if t[0] in ("double", "float"): raise Unsupported("floating variadic argument")
        if isinstance(v, T.T) and v.w < 64:
            # only the low bits of the slot are defined by the caller
            v = T.concat(T.fresh("va_hi", 64 - v.w), v)
        if k < 6: s.wcontent(reg).write(c64(8 * k), 8, v, s.bnd)
        else: over.append(v)
        k += 1
    ov = s.new("va_over", 8 * len(over), "stack"); fr.locals = fr.locals + [ov]
    for j, v in enumerate(over): s.wcontent(ov).write(c64(8 * j), 8, v, s.bnd)
    p = ex.norm_ptr(s, a[0])
    w = s.wcontent(p.obj); o = T.cval(p.off)
    w.write(c64(o), 4, const(min(nfix, 6) * 8, 32), s.bnd)
    w.write(c64(o + 4), 4, const(48, 32), s.bnd)
    w.write(c64(o + 8), 8, Ptr(ov, c64(0)), s.bnd)
    w.write(c64(o + 16), 8, Ptr(reg, c64(0)), s.bnd)
    return None
