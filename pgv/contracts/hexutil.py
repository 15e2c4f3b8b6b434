"""Hexadecimal text (U01) and hash text cleaning (U02)."""
from .common import *
from .. import loops
from ..mem import *
from ..exec import Fork
from ..builtins import AStr

HD = b"0123456789abcdef"
class Text:
    """a NUL-terminated text of n characters; prefix: its second character is x or X (then the first two are dropped).
    Ghost functions: cnt(i) digits among the first i characters (digits before the end of the prefix count only up to there),
    Dc(q), Dg(q) character and value of the q-th digit; T = cnt(n), T = 2*M + odd when odd is given"""
    def __init__(s, prefix, odd=None):
        s.prefix = prefix; s.odd = odd; cls = [0] * 256; val = [0] * 256
        for c in b"0123456789abcdefABCDEF": cls[c] = 1; val[c] = int(chr(c), 16)
        s.tcls = T.table("hexcls", cls, 8); s.tval = T.table("hexval", val, 8); s.n = T.zext(T.var("textlen", 60), 64); s.s0 = c64(2 if prefix else 0)
        s.Tt = s.cnt(s.n) if odd is None else T.linear(odd, [(2, T.zext(T.var("M", 59), 64))], 64)
        s.whole = False       # read the text as one function of the index instead of splitting at its end
    def isx(s, c): return or_(eq(c, const(120, 8)), eq(c, const(88, 8)))
    def pre(s):
        fs = [ule(s.n, c64(1 << 59)), ule(s.Tt, s.n), eq(s.cnt(s.n), s.Tt), impl(ult(c64(0), s.n), ne(s.ch(c64(0)), const(0, 8)))]
        fs.append(impl(eq(s.n, s.s0), eq(s.cnt(s.n), c64(0)))); fs += [impl(eq(s.n, c64(k)), eq(s.cnt(c64(k)), s.Tt)) for k in (0, 1)]; x = s.isx(s.ch(c64(1))); return fs + ([ule(c64(2), s.n), x] if s.prefix else [or_(ult(s.n, c64(2)), not_(x))])
    def ch(s, i): return T.uf("text", 8, i)
    def cnt(s, i):
        if T.isc(i) and T.cval(i) == 0: return c64(0)
        if s.prefix and T.isc(i) and T.cval(i) == 2: return c64(0)
        return T.zext(T.uf("cnt", 60, i), 64)
    def digit(s, c): return eq(T.tbl(s.tcls, c), const(1, 8))
    def val(s, c): return T.trunc(T.tbl(s.tval, c), 4)
    def Dc(s, q): return T.uf("Dc", 8, q)
    def Dg(s, q): return T.uf("Dg", 4, q)
    def step(s, i):
        c = s.cnt(i); ch = s.ch(i); c1 = s.cnt(T.add(i, c64(1))); d = s.digit(ch); g = ult(i, s.n); past = ule(s.s0, i); out = [impl(g, ne(ch, const(0, 8)))]
        out.append(impl(eq(i, s.s0), eq(c, c64(0)))); nxt = ite(d, T.add(c, c64(1)), c)
        if s.prefix: nxt = ite(eq(i, c64(1)), c64(0), nxt); out += [impl(eq(i, c64(1)), s.isx(ch)), ule(c, i), impl(eq(i, c64(2)), eq(c, c64(0)))]
        out += [impl(g, eq(c1, nxt)), impl(past, ule(c, s.Tt)), impl(and_(g, past), ule(c1, s.Tt)), impl(and_(g, d, past), and_(eq(s.Dc(c), ch), eq(s.Dg(c), s.val(ch)))), ule(c, i)]
        return out
    # the digits as pairs, with a zero in front of an odd number of them
    def V(s, q):
        if not s.odd: return s.Dg(q)
        return ite(eq(q, c64(0)), const(0, 4), s.Dg(T.sub(q, c64(1))))
    def byte(s, j): d = T.linear(0, [(2, j)], 64); return T.concat(s.V(d), s.V(T.add(d, c64(1))))
def impl(a, b): return or_(not_(a), b)
class ATxt(AStr):
    def __init__(a, t): a.t = t; AStr.__init__(a, t.ch, t.n)
    def get(a, i, dec):
        c = eq(i, a.n); v = dec(c)
        if v is None:
            if a.t.whole: return ite(c, const(0, 8), a.t.ch(i))
            raise Fork(c, True)
        return const(0, 8) if v else a.t.ch(i)
class ACleaned(Arr):
    """the text being cleaned in place after i characters"""
    def __init__(a, f, i): a.f = f; a.i = i
    def get(a, j, dec):
        t = a.f.t
        if j is a.i and not t.whole:
            c = eq(j, t.n); v = dec(c)
            if v is None: raise Fork(c, True)
            return const(0, 8) if v else t.ch(j)
        return ite(and_(ule(t.s0, a.i), ult(j, t.cnt(a.i))), t.Dc(j), ite(ult(j, a.i), T.uf("dead", 8, j), ite(eq(j, t.n), const(0, 8), t.ch(j))))
class Spec(loops.LoopSpec):
    def __init__(s, t, txt, out, orig, mode): s.t = t; s.txt = txt; s.out = out; s.orig = orig; s.mode = mode
    def start(s, ex, st): return [Fam(s, ex, st)]
class Fam(loops.Family):
    coefs = (1,)
    def __init__(f, s, ex, st):
        f.s = s; f.t = s.t; fr = st.frames[-1]; ps = [fr.env[p.res] for p in fr.fn.blocks[fr.block].phis]
        f.ptrs = [p for p in ps if isinstance(p, Ptr)]; tp = [p.off for p in f.ptrs if p.obj is s.txt]; f.p0 = tp[0] if tp else s.t.s0 if s.mode == "parse" else c64(0)
        f.writes = s.mode == "clean" or s.out is not None and any(p.obj is s.out for p in f.ptrs) or s.mode == "parse" and any(isinstance(v, T.T) and v.w == 8 for v in ps)
        f.managed = (s.out,) if f.writes else ()
    def fresh(f, ex, st):
        t = f.t; f.n = T.zext(T.fresh("k", 60), 64); i = f.at(f.n)
        return [ule(f.n, f.nmax()), ule(i, t.n)] + t.step(i)
    def at(f, n): return T.add(f.p0, n)
    def v(f, n): return T.add(f.t.cnt(f.at(n)), c64(f.t.odd or 0))
    def nmax(f): return T.sub(f.t.n, f.p0)
    def names(f, n):
        t = f.t
        if f.s.mode == "parse": return [("bytes", lambda n: T.lshrc(f.v(n), 1))]
        if f.s.mode == "count": return [("count", lambda n: t.cnt(f.at(n)))]
        return [("count", lambda n: t.cnt(f.at(n))), ("flag", lambda n: (lambda i: ite(ult(i, c64(3)), i, c64(3)))(f.at(n)))]
    def values(f, s):
        if f.s.mode != "parse" or not isinstance(s.v0, T.T): return []
        t = f.t; one = c64(1); odd = lambda n: T.trunc(f.v(n), 1)
        return [("parity", lambda n: T.zext(T.trunc(t.cnt(f.at(n)), 1), 64)), ("parity of the padded digits", lambda n: T.zext(odd(n), 64)),
                ("pending", lambda n: T.zext(T.concat(ite(and_(eq(odd(n), const(1, 1)), ne(t.cnt(f.at(n)), c64(0))), t.Dg(T.sub(t.cnt(f.at(n)), one)), const(0, 4)), const(0, 4)), 64)),
                ("pending, unshifted", lambda n: T.zext(ite(and_(eq(odd(n), const(1, 1)), ne(t.cnt(f.at(n)), c64(0))), t.Dg(T.sub(t.cnt(f.at(n)), one)), const(0, 4)), 64))]
    def first(f, s):
        if s.kind != "phi": return "havoc"
        ptr = isinstance(s.v0, Ptr)
        if f.s.mode == "count": return "count"
        if f.s.mode != "parse": return "count" if ptr else "flag"
        return "bytes" if ptr else "pending" if s.w == 8 else "parity of the padded digits" if f.writes else "parity"
    def outf(f, n):
        t = f.t; i = f.at(n)
        if f.s.mode == "parse": return lambda j: ite(ult(j, T.lshrc(f.v(n), 1)), t.byte(j), f.s.orig(j))
        return lambda j: ite(and_(ule(t.s0, i), ult(j, t.cnt(i))), t.Dc(j), T.uf("dead", 8, j))
    def apply(f, ex, st):
        if not f.writes: return
        a = ACleaned(f, f.at(f.n)) if f.s.out is f.s.txt else ALam(f.outf(f.n), "output so far")
        st.mem[f.s.out] = Content(a, {}, st.tok)
    def goals(f, ex, st, n):
        if not f.writes: return []
        f.t.whole = True
        try: return f.goals1(st, n)
        finally: f.t.whole = False
    def goals1(f, st, n):
        t = f.t; i = f.at(n); j = T.zext(T.fresh("j", 60), 64); out = []
        m = T.lshrc(f.v(n), 1) if f.s.mode == "parse" else t.cnt(i); g = ult(j, m) if f.s.mode == "parse" else and_(ule(t.s0, i), ult(j, m))
        s2 = st.clone(); s2.facts.add(g); v = st.content(f.s.out).read(j, 1, s2.dec, s2.bnd)
        out.append(("output so far", impl(g, eq(v, t.byte(j) if f.s.mode == "parse" else t.Dc(j)))))
        if f.s.out is f.s.txt:
            s2 = st.clone(); g = and_(ule(i, j), ule(j, t.n)); s2.facts.add(g)
            v = st.content(f.s.out).read(j, 1, s2.dec, s2.bnd)
            out.append(("rest of the text", impl(g, eq(v, ite(eq(j, t.n), const(0, 8), t.ch(j))))))
        return out

def rd(o, obj, i):
    """[(state, byte i of obj)], split where the byte depends on an undecided condition"""
    try: return [(o, o.content(obj).read(i, 1, o.dec, o.bnd))]
    except Fork as e:
        r = []
        for c in (e.cond, not_(e.cond)):
            s = o.clone(); s.facts.add(c)
            if not s.facts.false: r += rd(s, obj, i)
        return r
def setup(ctx, prefix, odd=None, ro=True):
    st = State(); t = Text(prefix, odd)
    for x in t.pre() + t.step(c64(0)) + t.step(c64(1)): st.facts.add(x)
    return st, t, st.new("text", T.add(t.n, c64(1)), "param", ATxt(t), ro=ro)
W = {0: "", 1: ", with a prefix"}
def u_parse(prefix, odd):
    def f(ctx):
            fn = ctx.func("pgfe_hex_string_to_hash")
            st, t, txt = setup(ctx, prefix, odd); total = T.linear(odd, [(1, T.zext(T.var("M", 59), 64))], 64); out = st.new("output", total, "param"); orig = st.content(out).base
            ex = ctx.executor({}); ex.loopspec = Spec(t, txt, out, lambda i: orig.get(i, lambda c: None), "parse"); before = snap(st)
            for o in ctx.run(ex, st, fn, [P(txt), P(out)]):
                w = "pgfe_hex_string_to_hash, %s count of digits%s: " % ("odd" if odd else "even", W[prefix])
                frame(ctx, before, o, {out}, fn.name); ctx.oblige(o, eq(o.result, total), w + "returns half the digits, rounded up")
                j = T.zext(T.fresh("j", 60), 64); o.facts.add(ult(j, total))
                ctx.oblige(o, eq(o.content(out).read(j, 1, o.dec, o.bnd), t.byte(j)), w + "byte j is made of its pair of digits")
    return f
class FmtFam(loops.Family):
    coefs = (1, 2)
    def __init__(f, s): f.s = s; f.managed = (s.out,)
    def fresh(f, ex, st): f.n = T.zext(T.fresh("k", 60), 64); return [ule(f.n, f.nmax())]
    def nmax(f): return f.s.L
    def outf(f, n): return lambda j: ite(ult(T.lshrc(j, 1), n), f.s.hexch(j), f.s.orig(j))
    def apply(f, ex, st): st.mem[f.s.out] = Content(ALam(f.outf(f.n), "text so far"), {}, st.tok)
    def goals(f, ex, st, n):
        j = T.zext(T.fresh("j", 60), 64); g = ult(T.lshrc(j, 1), n); s2 = st.clone(); s2.facts.add(g); out = []
        for b in (0, 1):
            i = T.linear(b, [(2, j)], 64); g = ult(j, n); s2 = st.clone(); s2.facts.add(g); v = st.content(f.s.out).read(i, 1, s2.dec, s2.bnd)
            out.append(("digit %d of the bytes so far" % b, impl(g, eq(v, f.s.digit(j, b)))))
        return out
class FmtSpec(loops.LoopSpec):
    def __init__(s, L, out, orig): s.L = L; s.out = out; s.orig = orig; s.tab = T.table("lowhex", list(HD), 8)
    def digit(s, j, b): x = T.uf("in", 8, j); return T.tbl(s.tab, T.ext(3, 0, x) if b else T.ext(7, 4, x))
    def hexch(s, i): j = T.lshrc(i, 1); return ite(eq(T.trunc(i, 1), const(0, 1)), s.digit(j, 0), s.digit(j, 1))
    def start(s, ex, st): return [FmtFam(s)]
def u_format(ctx):
    fn = ctx.func("pgfe_hash_to_hex_string"); st = State(); L = T.zext(T.var("L", 60), 64); st.facts.add(ule(L, c64(1 << 58)))
    ino = st.new("input", L, "param", AUF("in"), ro=True); n2 = T.linear(0, [(2, L)], 64); out = st.new("output", T.add(n2, c64(1)), "param"); orig = st.content(out).base
    ex = ctx.executor({}); sp = ex.loopspec = FmtSpec(L, out, lambda i: orig.get(i, lambda c: None)); before = snap(st)
    for o in ctx.run(ex, st, fn, [P(ino), L, P(out)]):
        frame(ctx, before, o, {out}, fn.name); ctx.oblige(o, eq(o.result, n2), fn.name + " returns two digits per byte")
        ctx.oblige(o, eq(o.content(out).read(n2, 1, o.dec, o.bnd), const(0, 8)), fn.name + " ends the text with NUL")
        j = T.zext(T.fresh("j", 60), 64); o.facts.add(ult(j, L))
        for b in (0, 1): ctx.oblige(o, eq(o.content(out).read(T.linear(b, [(2, j)], 64), 1, o.dec, o.bnd), sp.digit(j, b)), "%s: digit %d of byte j" % (fn.name, b))
def u_round(ctx):
    """the text of the formatter's contract, in either case, read by the parser's contract"""
    st = State(); t = Text(0, 0); x = T.var("x", 4)
    for nm, d in (("lower", HD), ("upper", HD.upper())):
        c = T.tbl(T.table(nm + "hex", list(d), 8), x)
        ctx.oblige(st, t.digit(c), "every %s-case digit is a digit of the parser" % nm); ctx.oblige(st, eq(t.val(c), x), "the parser gives the %s-case digit of x the value x" % nm)
        ctx.oblige(st, not_(t.isx(c)), "no %s-case digit begins a prefix" % nm)
    for c in b"xXhH": ctx.oblige(st, not_(t.digit(const(c, 8))), "%r is no digit, so neither prefix nor suffix adds one" % chr(c))
def u_clean(name, inplace):
    def f(ctx):
        fn = ctx.func(name)
        for prefix in (0, 1):
            st, t, txt = setup(ctx, prefix, None, not inplace); out = txt if inplace else st.new("output", T.add(t.Tt, c64(1)), "param"); orig = st.content(out).base
            ex = ctx.executor({}); ex.loopspec = Spec(t, txt, out, None, "clean"); before = snap(st)
            for o in ctx.run(ex, st, fn, [P(txt)] + ([] if name.endswith("_") else [P(out)])):
                w = "%s%s%s: " % (name, " in place" if inplace else "", W[prefix])
                frame(ctx, before, o, {out}, fn.name); ctx.oblige(o, eq(o.result, t.Tt), w + "returns the number of digits")
                
                for s2, v in rd(o, out, t.Tt): ctx.oblige(s2, eq(v, const(0, 8)), w + "ends the text with NUL")
                j = T.zext(T.fresh("j", 60), 64); o.facts.add(ult(j, t.Tt))
                
                for s2, v in rd(o, out, j): ctx.oblige(s2, eq(v, t.Dc(j)), w + "character j is the j-th digit")
    return f
def u_length(ctx):
    fn = ctx.func("pgfe_hash_length")
    for prefix in (0, 1):
        st, t, txt = setup(ctx, prefix); before = snap(st)
        def clean(ex, s, a):
            """contract of pgfe_hash_string_clean"""
            ok = isinstance(a[0], Ptr) and a[0].obj is txt; ex.oblige(s, "pre", TRUE if ok else FALSE, "the text is what is cleaned")
            if ok: ex.oblige(s, "pre", eq(a[0].off, c64(0)), "the text is cleaned from its beginning")
            ex.oblige(s, "pre", FALSE if a[1].obj is txt else TRUE, "pgfe_hash_length leaves its text alone")
            if ok and a[1].obj is not txt:
                ex.access(s, a[1], T.add(t.Tt, c64(1)), "cleaned text", True) if hasattr(ex, "access") else None
                ex.oblige(s, "pre", and_(eq(a[1].off, c64(0)), ule(T.add(t.Tt, c64(1)), a[1].obj.size)), "room for the digits and the terminator"); s.mem[a[1].obj] = Content(AStr(t.Dc, t.Tt), {}, s.tok)
            return t.Tt
        ex = ctx.executor({"pgfe_hash_string_clean": clean}); ex.loopspec = Spec(t, txt, None, None, "count")
        for o in ctx.run(ex, st, fn, [P(txt)]):
            frame(ctx, before, o, set(), fn.name)
            ctx.oblige(o, eq(o.result, T.lshrc(T.add(t.Tt, c64(1)), 1)), "pgfe_hash_length%s: half the number of digits, rounded up" % W[prefix])
def units(which, prog):
    us = []
    if "hex" in which: us += [Unit("pgfe_hash_to_hex_string", u_format), *[Unit("pgfe_hex_string_to_hash, %s%s" % ("odd" if o else "even", W[p]), u_parse(p, o)) for p in (0, 1) for o in (0, 1)], Unit("parse after format", u_round)]
    if "clean" in which: us += [Unit("pgfe_hash_string_clean", u_clean("pgfe_hash_string_clean", False)), Unit("pgfe_hash_string_clean in place", u_clean("pgfe_hash_string_clean", True)),
                                Unit("pgfe_hash_string_clean_", u_clean("pgfe_hash_string_clean_", True)), Unit("pgfe_hash_length", u_length)]
    return us
