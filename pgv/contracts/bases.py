"""Base16/32/64 encoders (E01) and decoders (E02, E03), specified by the RFC 4648 bit layout."""
from .common import *
from .. import loops
from ..mem import *
from ..exec import Fork
from ..builtins import AStr, nonzero

A32 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"; A32H = b"0123456789ABCDEFGHIJKLMNOPQRSTUV"
A64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; A64U = A64[:62] + b"-_"; A16 = b"0123456789ABCDEF"
# alphabet, bits per symbol, bytes per group, symbols per group, encoder, decoder
K = {"16": (A16, 4, 1, 2, "pgfe_encode_base16", "pgfe_decode_base16"), "32": (A32, 5, 5, 8, "pgfe_encode_base32", "pgfe_decode_base32"),
     "32hex": (A32H, 5, 5, 8, "pgfe_encode_base32hex", "pgfe_decode_base32hex"), "64": (A64, 6, 3, 4, "pgfe_encode_base64", "pgfe_decode_base64"),
     "64url": (A64U, 6, 3, 4, "pgfe_encode_base64_url", "pgfe_decode_base64")}
GW = 58
def g64(G): return T.zext(G, 64)
class Rfc:
    """the RFC 4648 text of unit*N+rem bytes inf(0), inf(1), ..."""
    def __init__(s, kind, inf, N, rem):
        s.al, s.bits, s.unit, s.chunk = K[kind][:4]; s.inf = inf; s.N = N; s.rem = rem; s.lg = s.chunk.bit_length() - 1
        s.tab = T.table("rfc" + kind, list(s.al), 8); s.groups = T.add(N, const(1 if rem else 0, GW)); s.length = T.linear(rem, [(s.unit, g64(N))], 64)
        s.textlen = T.linear(0, [(s.chunk, g64(s.groups))], 64)
    def full(s, g): return ult(g, s.N)
    def byte(s, g, t):
        v = s.inf(T.linear(t, [(s.unit, g64(g))], 64))
        return v if t < s.rem else ite(s.full(g), v, const(0, 8))
    def sym(s, g, k):
        """symbol k of group g < groups"""
        lo = k * s.bits; hi = lo + s.bits - 1; t0, t1 = lo // 8, hi // 8
        def val(bs):
            w = T.concat(*bs); top = w.w - 1 - (lo - 8 * t0)
            return T.tbl(s.tab, T.ext(top, top - s.bits + 1, w))
        f = lambda t: s.inf(T.linear(t, [(s.unit, g64(g))], 64))
        whole = val([f(t) for t in range(t0, t1 + 1)])
        if t1 < s.rem: return whole
        part = val([f(t) if t < s.rem else const(0, 8) for t in range(t0, t1 + 1)]) if t0 < s.rem else const(ord("="), 8)
        return ite(s.full(g), whole, part)
    def idx(s, g, k): return T.concat(const(0, 64 - GW - s.lg), g, const(k, s.lg)) if s.lg else g64(g)
    def text(s, i):
        g = T.ext(GW + s.lg - 1, s.lg, i)
        if T.isc(T.ext(s.lg - 1, 0, i)): return s.sym(g, T.cval(T.ext(s.lg - 1, 0, i)))
        v = s.sym(g, s.chunk - 1)
        for k in range(s.chunk - 1): v = ite(eq(T.ext(s.lg - 1, 0, i), const(k, s.lg)), s.sym(g, k), v)
        return v
class EncSpec(loops.LoopSpec):
    def __init__(s, R, out, orig): s.R = R; s.out = out; s.orig = orig
    def start(s, ex, st): return [EncFam(s, s.R.groups)] + ([EncFam(s, s.R.N)] if s.R.rem else [])
class EncFam(loops.Family):
    def __init__(f, s, cap): f.s = s; f.cap = cap; f.coefs = (s.R.unit, s.R.chunk, 1) if s.R.unit > 1 else (1, s.R.chunk); f.managed = (s.out,)
    def fresh(f, ex, st):
        f.G = T.fresh("G", GW); f.n = g64(f.G)
        return [ule(f.G, f.cap)]
    def outf(f, G):
        R = f.s.R
        return lambda i: ite(ult(T.lshrc(i, R.lg) if R.lg else i, g64(G)), R.text(i), f.s.orig(i))
    def apply(f, ex, st): st.mem[f.s.out] = Content(ALam(f.outf(f.G), "text so far"), {}, st.tok)
    def goals(f, ex, st, n):
        R = f.s.R; G = T.trunc(st.facts.simp(n), GW); j = T.fresh("j", GW); s2 = st.clone(); s2.facts.add(ult(j, R.groups)); out = []
        for k in range(R.chunk):
            i = R.idx(j, k); v = st.content(f.s.out).read(i, 1, s2.dec, s2.bnd)
            out.append(("symbols %d of the groups so far" % k, or_(not_(ult(j, R.groups)), eq(v, f.outf(G)(i)))))
        return out
    def nmax(f): return g64(f.cap)

def u_enc(kind):
    def f(ctx):
        for rem in range(K[kind][2]):
            fn = ctx.func(K[kind][4]); st = State(); N = T.var("N", GW); st.facts.add(ule(N, const(1 << (GW - 2), GW)))
            R = Rfc(kind, lambda i: T.uf("in", 8, i), N, rem)
            ino = st.new("input", R.length, "param", AUF("in"), ro=True); out = st.new("output", T.add(R.textlen, c64(1)), "param"); orig = st.content(out).base
            ex = ctx.executor({}); ex.loopspec = EncSpec(R, out, lambda i: orig.get(i, lambda c: None)); before = snap(st)
            for o in ctx.run(ex, st, fn, [P(ino), R.length, P(out)]):
                ctx.oblige(o, eq(o.result, R.textlen), fn.name + " returns the text length")
                j = T.fresh("j", GW); o.facts.add(ult(j, R.groups))
                for k in range(R.chunk):
                    i = R.idx(j, k); v = o.content(out).read(i, 1, o.dec, o.bnd)
                    ctx.oblige(o, eq(v, R.sym(j, k)), "%s: symbol %d of group j" % (fn.name, k))
                ctx.oblige(o, eq(o.content(out).read(R.textlen, 1, o.dec, o.bnd), const(0, 8)), fn.name + " ends the text with NUL")
                frame(ctx, before, o, {out}, fn.name)
    return f
def units(which, prog):
    us = []
    if "enc" in which: us += [Unit(K[k][4], u_enc(k)) for k in K]
    return us

# ------------------------------------------------------------------ decoders
def impl(a, b): return or_(not_(a), b)
class Text:
    """an arbitrary NUL-terminated text of n characters, with ghost functions of the text:
      cnt(i)   number of symbols (alphabet characters and '=') among the first i characters
      S(q)     value of the q-th data symbol,
      pos(q)   position just after the q-th symbol (n when there are fewer)
    D data symbols and then only '=' (mode: D = chunk*DG + r, total T = chunk*DG + e), or, with r None, '=' anywhere"""
    def __init__(s, kind, r=None, e=None):
        s.kind = kind; s.al, s.bits, s.unit, s.chunk = K[kind][:4]; s.lg = s.chunk.bit_length() - 1; s.r = r; s.spec = None
        ci = kind[:2] in ("16", "32"); al = s.al.decode(); cls = [0] * 256; val = [0] * 256
        for c in range(256):
            ch = chr(c).upper() if ci and c < 128 else chr(c)
            if kind[:2] == "64": ch = {"-": "+", "_": "/"}.get(ch, ch); x = A64.decode().find(ch) if c < 128 else -1
            else: x = al.find(ch) if c < 128 else -1
            if x >= 0: cls[c] = 1; val[c] = x
            elif ch == "=" and kind != "16": cls[c] = 2
        s.tcls = T.table("cls" + kind, cls, 8); s.tval = T.table("val" + kind, val, 8)
        s.n = T.var("textlen", 64)
        if r is None: s.Tt = T.zext(T.var("symbols", 60), 64); s.cap = T.linear(1, [(s.unit, T.zext(T.trunc(T.lshrc(T.add(s.Tt, c64(s.chunk - 1)), s.lg), GW), 64))], 64)
        else:
            s.DG = T.zext(T.var("DG", GW), 64); s.D = T.linear(r, [(s.chunk, s.DG)], 64); s.e = T.zext(T.var("e", 4), 64) if e is None else c64(e); s.Tt = T.linear(0, [(s.chunk, s.DG), (1, s.e)], 64)
            s.groups = T.add(s.DG, c64(1 if r else 0)); s.GT = T.add(s.DG, ite(eq(s.e, c64(s.chunk)), c64(1), c64(0)))
            s.cap = T.linear(1, [(s.unit, s.groups)], 64); s.fb = r * s.bits // 8; s.total = T.linear(s.fb, [(s.unit, s.DG)], 64)
    def pre(s):
        fs = [ule(s.n, c64(1 << 58)), ule(s.Tt, s.n)]
        if s.r is not None: fs += [ule(s.DG, c64(1 << (GW - 2))), ule(c64(s.r), s.e), ule(s.e, c64(s.chunk))]
        return fs
    def ch(s, i): return T.uf("text", 8, i)
    def cnt(s, i): return c64(0) if T.isc(i) and T.cval(i) == 0 else T.zext(T.uf("cnt", 60, i), 64)
    def pos(s, q): return c64(0) if T.isc(q) and T.cval(q) == 0 else T.zext(T.uf("pos", 60, q), 64)
    def S(s, q):
        v = T.uf("S", s.bits, q)
        return v if s.r is None else ite(ult(q, s.D), v, const(0, s.bits))
    def data(s, ch): return eq(T.tbl(s.tcls, ch), const(1, 8))
    def pad(s, ch): return eq(T.tbl(s.tcls, ch), const(2, 8)) if s.kind != "16" else FALSE
    def dmin(s, x): return ite(ule(x, s.D), x, s.D)
    def step(s, i):
        """the definitions unfolded at position i < n"""
        c = s.cnt(i); ch = s.ch(i); i1 = T.add(i, c64(1)); c1 = s.cnt(i1); sym = or_(s.data(ch), s.pad(ch)); g = ult(i, s.n); out = []
        for f in [ne(ch, const(0, 8)), eq(c1, ite(sym, T.add(c, c64(1)), c)), ule(c1, s.Tt),
                  impl(s.data(ch), eq(T.trunc(T.tbl(s.tval, ch), s.bits), s.S(c))), impl(sym, eq(s.pos(c1), i1))]:
            out.append(impl(g, f))
        if s.r is not None: out += [impl(g, impl(s.data(ch), ult(c, s.D))), impl(g, impl(s.pad(ch), ule(s.D, c)))]
        return out
    def byte(s, g, t):
        """byte t of the group g of symbols"""
        lo = 8 * t // s.bits; hi = (8 * t + 7) // s.bits
        w = T.concat(*[s.S(T.linear(k, [(s.chunk, g)], 64)) for k in range(lo, hi + 1)]); top = w.w - 1 - (8 * t - s.bits * lo)
        return T.ext(top, top - 7, w)
class ATxt(Arr):
    def __init__(a, s): a.s = s
    def get(a, i, dec):
        s = a.s; c = eq(i, s.n); v = dec(c)
        if v is None: raise Fork(c, True)
        if not v: return s.ch(i)
        G = s.spec.G if s.spec is not None else None
        if s.r is not None and G is not None:
            for x in (s.GT, T.sub(s.GT, c64(1))):
                c = eq(G, x); v = dec(c)
                if v is None: raise Fork(c, True)
                if v: break
        return const(0, 8)
class DecSpec(loops.LoopSpec):
    def __init__(s, t, txt, out, orig): s.t = t; s.txt = txt; s.out = out; s.orig = orig; s.G = None; t.spec = s
    def start(s, ex, st):
        fr = st.frames[-1]; ps = [fr.env[p.res] for p in fr.fn.blocks[fr.block].phis]
        ps = [p.off for p in ps if isinstance(p, Ptr) and p.obj is s.txt]
        if not ps: return [loops.Family()]
        if s.G is None: return [OutFam(s)]
        return [InFam(s, ps[0])]
class OutFam(loops.Family):
    def __init__(f, s): f.s = s; f.coefs = (s.t.unit,); f.managed = (s.out,)
    def fresh(f, ex, st):
        t = f.s.t; f.n = T.zext(T.fresh("G", GW), 64); f.s.G = f.n; q = f.q(f.n); p = t.pos(q); q1 = T.add(q, c64(t.chunk))
        fs = [ule(f.n, f.nmax()), ule(p, t.n), or_(ule(q1, t.Tt), eq(t.pos(q1), t.n)), or_(eq(t.cnt(p), q), and_(ult(t.Tt, q), eq(p, t.n))), or_(ne(p, t.n), eq(t.cnt(p), t.Tt)),
              ule(t.cnt(p), t.Tt), or_(ule(q, t.Tt), eq(p, t.n))]
        fs.append(impl(ult(p, t.n), ne(t.ch(p), const(0, 8))))
        if t.r is None: fs += [ule(f.v(T.sub(f.n, c64(1)), p), c64(t.chunk))]
        else: fs.append(or_(ule(f.n, t.DG), eq(f.n, T.add(t.DG, c64(1)))))
        return fs
    def q(f, n): return T.linear(0, [(f.s.t.chunk, n)], 64)
    def v(f, g, p): return T.zext(T.uf("valid", 4, g, p), 64)
    def nmax(f): return f.s.t.groups if f.s.t.r is not None else T.zext(T.trunc(T.lshrc(T.add(f.s.t.Tt, c64(f.s.t.chunk - 1)), f.s.t.lg), GW), 64)
    def missing(f, n):
        t = f.s.t
        if T.isc(n) and T.cval(n) == 0: return c64(0)
        if t.r is not None: return ite(ult(t.D, f.q(n)), T.sub(T.linear(0, [(t.unit, n)], 64), t.total), c64(0))
        v = f.v(T.sub(n, c64(1)), t.pos(f.q(n)))
        return ite(eq(n, c64(0)), c64(0), T.sub(c64(t.unit), T.lshrc(T.mul(v, c64(t.bits)), 3)))
    def names(f, n):
        t = f.s.t
        return [("position", lambda n: t.pos(f.q(n))), ("missing", f.missing)]
    def first(f, s): return "position" if isinstance(s.v0, Ptr) and s.v0.obj is f.s.txt else None if not isinstance(s.v0, T.T) or s.w != 64 else "havoc" if s.inside else "missing"
    def outf(f, G):
        t = f.s.t
        def g(i):
            k = T.ext
            # i = unit*g + b: only asked for in that form
            r = f.split(i)
            if r is None: return T.uf("outbyte", 8, i)
            return ite(ult(r[0], G), t.byte(*r), f.s.orig(i))
        return g
    def split(f, i):
        t = f.s.t
        if t.unit == 1: return i, 0
        tmp = {}; c = T._addin(tmp, 1, i, 64) & mask(64); b = c % t.unit
        if any(k % t.unit for k in tmp.values()): return None
        return T.linear(c // t.unit, [(k // t.unit, x) for x, k in tmp.items()], 64), b
    def apply(f, ex, st):
        st.mem[f.s.out] = Content(ALam(f.outf(f.n), "bytes so far"), {}, st.tok) if f.s.t.r is not None else Content(AHavoc("out"), {}, st.tok)
    def goals(f, ex, st, n):
        t = f.s.t
        if t.r is None: return []
        n = st.facts.simp(n); j = T.zext(T.fresh("j", GW), 64); s2 = st.clone(); s2.facts.add(ult(j, n)); out = []
        for b in range(t.unit):
            i = T.linear(b, [(t.unit, j)], 64); v = st.content(f.s.out).read(i, 1, s2.dec, s2.bnd)
            out.append(("bytes %d of the groups so far" % b, or_(not_(ult(j, n)), eq(v, t.byte(j, b)))))
        return out
class InFam(loops.Family):
    coefs = (1,)
    def __init__(f, s, p0): f.s = s; f.p0 = p0; f.G = s.G; f.base = T.linear(0, [(s.t.chunk, f.G)], 64)
    def fresh(f, ex, st):
        t = f.s.t; f.n = T.fresh("m", 60); f.n = T.zext(f.n, 64); i = T.add(f.p0, f.n); c = t.cnt(i); top = T.add(f.base, c64(t.chunk))
        fs = [ule(f.n, f.nmax()), ule(i, t.n), ule(f.base, c), ule(c, top), ule(c, t.Tt), or_(ne(c, top), eq(t.pos(top), i)), ("rule", or_(ne(i, t.n), eq(c, t.Tt)))]
        fs += t.step(i)
        # whatever 64-bit integer the group starts with, shifted left once per symbol with the value of the symbol put in
        fr = st.frames[-1]; f.accs = [p.res for p in fr.fn.blocks[fr.block].phis if isinstance(fr.env[p.res], T.T) and fr.env[p.res].w == 64 and not T.isc(fr.env[p.res])]
        for p in fr.fn.blocks[fr.block].phis:
            v = fr.env[p.res]
            if not (isinstance(v, T.T) and v.w == 64): continue
            k = p.res; fs.append(eq(f.acc(k, f.base), v))
            for x in [T.add(f.base, c64(d)) for d in range(t.chunk)] + [c]: fs.append(eq(f.acc(k, T.add(x, c64(1))), T.concat(T.ext(63 - t.bits, 0, f.acc(k, x)), t.S(x))))
        if t.r is None:
            v = f.valid(f.n); i1 = T.add(i, c64(1))
            fs += [ule(v, T.sub(c, f.base)), impl(ult(i, t.n), eq(f.valid(T.add(f.n, c64(1))), ite(t.data(t.ch(i)), T.sub(T.add(c, c64(1)), f.base), v)))]
        return fs
    def acc(f, k, q): return T.uf("acc." + k, 64, q)
    def values(f, s): return [("accumulator", lambda n: f.acc(s.key, f.s.t.cnt(T.add(f.p0, n))))] if s.kind == "phi" and isinstance(s.v0, T.T) and s.w == 64 else []
    def first(f, s): return "accumulator" if f.values(s) and s.key in f.accs else None
    def valid(f, n):
        t = f.s.t
        if T.isc(n) and T.cval(n) == 0: return c64(0)
        i = T.add(f.p0, n)
        if t.r is not None: return T.sub(t.dmin(t.cnt(i)), t.dmin(f.base))
        return T.zext(T.uf("valid", 4, f.G, i), 64)
    def names(f, n):
        t = f.s.t; z = lambda n: T.isc(n) and T.cval(n) == 0
        return [("count", lambda n: c64(0) if z(n) else T.sub(t.cnt(T.add(f.p0, n)), f.base)), ("valid", f.valid)]
    def goals(f, ex, st, n):
        t = f.s.t; i = T.add(f.p0, n); c = t.cnt(i); top = T.add(f.base, c64(t.chunk))
        if T.isc(n) and T.cval(n) == 0: return [("count starts at the group", eq(c, f.base))]
        return [("count within the group", and_(ule(f.base, c), ule(c, top))), ("group end position", or_(ne(c, top), eq(t.pos(top), i)))]
    def nmax(f): return T.sub(f.s.t.n, f.p0)

def cases(kind):
    _, bits, unit, chunk = K[kind][:4]
    return [(r, None if r and kind != "16" else r) for r in range(chunk)]      # e None: any number of trailing '=' up to the end of the group
def u_dec(kind, cs):
    def f(ctx):
        for r, e in cs:
            fn = ctx.func(K[kind][5] if kind != "64url" else K["64"][5]); st = State(); t = Text(kind, r, e)
            for x in t.pre(): st.facts.add(x)
            txt = st.new("text", T.add(t.n, c64(1)), "param", ATxt(t), ro=True); out = st.new("output", t.cap, "param"); orig = st.content(out).base
            ex = ctx.executor({}); ex.loopspec = DecSpec(t, txt, out, lambda i: orig.get(i, lambda c: None)); before = snap(st)
            for o in ctx.run(ex, st, fn, [P(txt), P(out)]):
                frame(ctx, before, o, {out}, fn.name)
                if r is None: ctx.oblige(o, ult(o.result, t.cap), fn.name + ": returns at most the space of the whole groups, for any text"); continue
                w = "%s: %d symbols beyond whole groups" % (fn.name, r)
                ctx.oblige(o, eq(o.result, t.total), w + ": returns the number of whole bytes")
                j = T.zext(T.fresh("j", GW), 64)
                for b in range(t.unit):
                    i = T.linear(b, [(t.unit, j)], 64); s2 = o.clone(); s2.facts.add(ult(i, t.total)); v = s2.content(out).read(i, 1, s2.dec, s2.bnd)
                    ctx.oblige(s2, eq(v, t.byte(j, b)), w + ": byte %d of group j" % b)
    return f
_enc = units
def units(which, prog):
    us = _enc(which, prog)
    if "dec" in which:
        for k in K:
            if k == "64url": continue
            for r in range(K[k][3]): us.append(Unit("%s, %d symbols beyond whole groups" % (K[k][5], r), u_dec(k, [c for c in cases(k) if c[0] == r])))
            if k != "16": us.append(Unit("%s, any text" % K[k][5], u_dec(k, [(None, None)])))
    return us

# ------------------------------------------------------------------ decode(encode(x)) = x
def u_round(kind):
    """the text of the encoder's contract, read by the decoder's contract"""
    def f(ctx):
        al, bits, unit, chunk = K[kind][:4]; dk = {"64url": "64"}.get(kind, kind)
        x = T.var("x", bits); ch = T.tbl(T.table("rfc" + kind, list(al), 8), x); st = State(); t = Text(dk, 0, 0)
        ctx.oblige(st, t.data(ch), kind + ": every alphabet character is a data symbol of the decoder, so none is skipped, ends the text or is taken for '='")
        ctx.oblige(st, eq(T.trunc(T.tbl(t.tval, ch), bits), x), kind + ": the decoder gives the alphabet character of x the value x")
        if kind != "16": ctx.oblige(st, t.pad(const(ord("="), 8)), kind + ": '=' is padding for the decoder")
        N = T.var("N", GW)
        for rem in range(unit):
            R = Rfc(kind, lambda i: T.uf("in", 8, i), N, rem); r = -(-8 * rem // bits); st = State(); st.facts.add(ule(N, const(1 << (GW - 2), GW))); w = "%s, %d bytes beyond whole groups: " % (kind, rem)
            t = Text(dk, r, chunk if rem else 0); same = eq(t.DG, g64(N))
            st.facts.add(same)
            ctx.oblige(st, eq(t.Tt, R.textlen), w + "the symbols of the text are all its characters")
            ctx.oblige(st, eq(t.total, R.length), w + "the decoder returns the encoded length")
            for k in range(chunk):      # the symbol values, by the lemma above, are the bits the alphabet was indexed with
                g = T.fresh("g", GW); s2 = st.clone(); s2.facts.add(ult(g, R.groups)); c = R.sym(g, k); i = T.linear(k, [(chunk, g64(g))], 64)
                ctx.oblige(s2, ite(ult(i, t.D), t.data(c), t.pad(c) if kind != "16" else FALSE), w + "symbol %d of a group is data exactly within the data symbols" % k)
            for b in range(unit):
                g = T.fresh("g", GW); s2 = st.clone(); i = T.linear(b, [(unit, g64(g))], 64); s2.facts.add(ult(i, R.length))
                lo = 8 * b // bits; hi = (8 * b + 7) // bits
                wd = T.concat(*[ite(ult(T.linear(k, [(chunk, g64(g))], 64), t.D), T.trunc(T.tbl(t.tval, R.sym(g, k)), bits), const(0, bits)) for k in range(lo, hi + 1)]); top = wd.w - 1 - (8 * b - bits * lo)
                ctx.oblige(s2, eq(T.ext(top, top - 7, wd), R.inf(i)), w + "byte %d of a group is decoded to itself" % b)
    return f
_dec = units
def units(which, prog):
    us = _dec(which, prog)
    if "round" in which: us += [Unit("decode after encode, base" + k, u_round(k)) for k in K]
    return us
