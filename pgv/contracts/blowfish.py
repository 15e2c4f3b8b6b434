"""Contracts of the Blowfish functions (B01..B03).

encrypt_unit / decrypt_unit: for every context (18 + 1024 arbitrary words) and every block
  B01: encrypt_unit returns the published 16-round network's result on those words; init returns the published schedule
  B02: decrypt_unit(encrypt_unit(x)) = x and encrypt_unit(decrypt_unit(x)) = x; the context is not written
  B03: encrypt/decrypt process consecutive 8-byte big-endian blocks with the unit function, zero padded
Callers see encrypt_unit/decrypt_unit through their contract: a function E/D of the context's content and the block."""
from .common import *
from .. import loops
from ..spec import blowfish as SB

HD = "libpgfe/fishes/blowfish.h"
ENC, DEC, INIT, BUFE, BUFD = "pgfe_blowfish_encrypt_unit", "pgfe_blowfish_decrypt_unit", "pgfe_blowfish_init", "pgfe_blowfish_encrypt", "pgfe_blowfish_decrypt"
def lay(): return layout(HD, "pgfe_blowfish_ctx", ("P", "S"))
def ulay():
    e = cexpr(HD, {"l": "offsetof(pgfe_fake_uint64_t, left)", "r": "offsetof(pgfe_fake_uint64_t, right)", "n": "sizeof(pgfe_fake_uint64_t)"})
    return e["l"], e["r"], e["n"]
def W(i): return T.uf("BF", 32, T.trunc(i, 16))   # word i of an arbitrary context
def SP(row, b): return W(T.linear(lay()["S"][0] // 4 + 256 * row, [(1, T.zext(b, 64))], 64))
def PW(): return [W(c64(lay()["P"][0] // 4 + i)) for i in range(18)]
def any_ctx(st):
    o = st.new("ctx", lay()[""], "param", AWords(W, 4), ro=True)
    return o
def any_unit(st, l, r):
    lo, ro, n = ulay(); o = st.new("unit", n, "param")
    st.wcontent(o).write(c64(lo), 4, l, st.bnd); st.wcontent(o).write(c64(ro), 4, r, st.bnd)
    return o
def get_unit(st, p):
    lo, ro, n = ulay()
    return [st.facts.simp(st.content(p.obj).read(T.add(p.off, c64(o)), 4, st.dec, st.bnd)) for o in (lo, ro)]
def put_unit(st, p, l, r):
    lo, ro, n = ulay()
    for o, v in ((lo, l), (ro, r)): st.wcontent(p.obj).write(T.add(p.off, c64(o)), 4, v, st.bnd)

def same(ctx, out, a, b, what):
    a, b = T.named(out.facts.simp(a)) if a.w == 64 else out.facts.simp(a), b
    if a is b: return ctx.require(True, what, "post", "syntactic")
    return ctx.oblige(out, eq(a, b), what)

def u_encrypt(ctx):
    ex = ctx.executor(); st = State(); o = any_ctx(st); l, r = T.var("l", 32), T.var("r", 32); u = any_unit(st, l, r); before = snap(st)
    want = SB.encrypt(PW(), SP, l, r)
    for out in ctx.run(ex, st, ctx.func(ENC), [P(o), P(u)]):
        for nm, a, b in zip(("left", "right"), get_unit(out, P(u)), want): same(ctx, out, a, b, "encrypt_unit: %s half is the published cipher's" % nm)
        frame(ctx, before, out, {u}, ENC)
def u_inverse(first, second):
    def f(ctx):
        ex = ctx.executor(); st = State(); o = any_ctx(st); l, r = T.var("l", 32), T.var("r", 32); u = any_unit(st, l, r); before = snap(st)
        for mid in ctx.run(ex, st, ctx.func(first), [P(o), P(u)]):
            frame(ctx, before, mid, {u}, first + " writes only the block"); mid.kind = None; mid.frames = []
            b2 = snap(mid)
            for out in ctx.run(ex, mid, ctx.func(second), [P(o), P(u)]):
                for nm, a, b in zip(("left", "right"), get_unit(out, P(u)), (l, r)): same(ctx, out, a, b, "%s after %s restores the %s half" % (second, first, nm))
                frame(ctx, b2, out, {u}, second + " writes only the block")
    return f

_ids = {}; _bw = {}
def xbyte(w, k):
    if w.op == "xor":
        r = const(T.trunc(T.lshrc(const(w.a[0], 32), k), 8).a[0], 8)
        for m in w.a[1]:
            p = xbyte(m[0], k)
            for x in m[1:]: p = T.band(p, xbyte(x, k))
            r = T.bxor(r, p)
        return r
    return T.ext(k + 7, k, w)
def bytewise(w):
    """normal form of a word put together from bytes"""
    if w.op in ("uf", "const", "var"): return w.id
    if w not in _bw: _bw[w] = tuple(xbyte(w, k).id for k in (24, 16, 8, 0))
    return _bw[w]
def enc_uf(words, l, r):
    k = tuple(bytewise(w) for w in words); i = _ids.setdefault(k, len(_ids))
    return T.uf("bfE_l", 32, const(i, 32), l, r), T.uf("bfE_r", 32, const(i, 32), l, r)
def enc_override(cache):
    """encrypt_unit by contract: the block becomes E(context words, block), nothing else is written"""
    def h(ex, st, args):
        L = lay(); p = ex.access(st, args[0], c64(L[""]), "context of encrypt_unit"); u = ex.access(st, args[1], c64(ulay()[2]), "block of encrypt_unit", True)
        if p is None or u is None: return None
        ct = st.content(p.obj); ws = []
        for nm in ("P", "S"):
            for k in range(0, L[nm][1], 4):
                off = T.add(p.off, c64(L[nm][0] + k)); q = T.cval(off) if T.isc(off) else None
                c = ct.cells.get(q) if q is not None else None
                if c is not None and c[0] == 4: ws.append(c[1]); continue
                key = (id(ct.base), q)
                if q is not None and key in cache and cell_cover(ct.cells, q) is None and not any((q + b) in ct.cells for b in range(4)): ws.append(cache[key][1]); continue
                v = ct.read(off, 4, st.dec, st.bnd)
                if q is not None and cell_cover(ct.cells, q) is None and not any((q + b) in ct.cells for b in range(4)): cache[key] = (ct.base, v)
                ws.append(v)
        l, r = get_unit(st, u)
        put_unit(st, u, *enc_uf(ws, l, r))
        return None
    return h

def u_init(lens):
    def f(ctx):
        L = lay(); fn = ctx.func(INIT); cache = {}
        for n in lens:
            ex = ctx.executor({ENC: enc_override(cache)}); ex.max_steps = 10 ** 8; st = State(); o = st.new("ctx", L[""], "param")
            key = [T.var("k%d" % i, 8) for i in range(n)]
            ko = st.new("key", n, "param", ro=True)
            for i, k in enumerate(key): st.mem[ko].cells[i] = (1, k)
            before = snap(st); want = SB.schedule(key, enc_uf)
            for out in ctx.run(ex, st, fn, [P(o), P(ko), c64(n)]):
                for i in range(1042):
                    off = L["P"][0] + 4 * i if i < 18 else L["S"][0] + 4 * (i - 18)
                    same(ctx, out, out.content(o).read(c64(off), 4, out.dec, out.bnd), want[i], "init with a %d-byte key: subkey word %d is the published schedule's" % (n, i))
                frame(ctx, before, out, {o}, INIT)
    return f

# ------------------------------------------------------------------ buffers
def inp(i): return T.uf("in", 8, i)
def blk(f, B):
    """(l, r) of block B (61-bit) of byte function f"""
    b = lambda t: f(T.concat(B, const(t, 3)))
    return T.concat(*[b(t) for t in range(4)]), T.concat(*[b(t) for t in range(4, 8)])
def U(nm, l, r):
    """unit function by contract, with the inverse law (B02)"""
    inv = {"E": "D", "D": "E"}[nm]
    if l.op == "uf" and r.op == "uf" and l.a[0] == "bf%s_l" % inv and r.a[0] == "bf%s_r" % inv and l.a[1:] == r.a[1:]: return l.a[1], l.a[2]
    return T.uf("bf%s_l" % nm, 32, l, r), T.uf("bf%s_r" % nm, 32, l, r)
def unit_override(nm, ctxo, base, f=None, cand=None):
    def h(ex, st, args):
        p = ex.norm_ptr(st, args[0]); u = ex.access(st, args[1], c64(ulay()[2]), "block of the unit function", True)
        c = st.content(p.obj)
        ex.oblige(st, "pre", T.boolc(p.obj is ctxo and T.isc(p.off) and T.cval(p.off) == 0 and c.base is base and not c.cells), "unit function is given the caller's unchanged context")
        if u is None: return None
        l, r = get_unit(st, u)
        for B in (cand() if cand else ()):
            # canonical form: the block is exactly block B of the stream
            L, R = blk(f, B)
            if (l is L and r is R): break
            if smt.prove(st.facts, eq(T.concat(l, r), T.concat(L, R)), 20)[0]: l, r = L, R; break
        put_unit(st, u, *U(nm, l, r))
        return None
    return h
def out_byte(nm, f, i):
    """byte i of the processed stream f"""
    B = T.ext(63, 3, i); l, r = U(nm, *blk(f, B)); w = T.concat(l, r)
    if T.isc(T.ext(2, 0, i)): k = T.cval(T.ext(2, 0, i)); return T.ext(63 - 8 * k, 56 - 8 * k, w)
    v = T.ext(7, 0, w)
    for k in range(7): v = ite(eq(T.ext(2, 0, i), const(k, 3)), T.ext(63 - 8 * k, 56 - 8 * k, w), v)
    return v

class BufSpec(loops.LoopSpec):
    B = None
    def cand(s): return [x for x in (s.B, const(0, 61)) if x is not None]
    def __init__(s, nm, f, out, length, orig): s.nm = nm; s.f = f; s.out = out; s.length = length; s.orig = orig
    def start(s, ex, st): return [BufFam(s, "BR"), BufFam(s, "B"), BufFam(s, "F"), BufFam(s, "T")]
class BufFam(loops.Family):
    coefs = (1, -1, 8, -8)
    def __init__(f, spec, mode): f.s = spec; f.mode = mode
    def fresh(f, ex, st):
        s = f.s; f.B = T.fresh("B", 61); f.R = T.fresh("R", 3) if f.mode == "BR" else const(0, 3)
        f.p = T.concat(f.B, f.R)
        f.n = f.p; s.B = f.B
        if f.mode == "T": f.n = T.zext(f.B, 64); f.coefs = (8, 1, -1)
        f.unit = next((o for o in reversed(st.frames[-1].locals) if T.isc(o.size) and T.cval(o.size) == 8), None) if f.mode == "BR" else None
        f.managed = (s.out,) + ((f.unit,) if f.unit is not None else ())
        return [ule(f.p, s.length)] if f.mode in ("BR", "F") else [ule(f.p, T.add(s.length, c64(7)))]
    def plausible(f, ex, G0, backs):
        """bytewise: something steps by one; blockwise: nothing does"""
        one = False
        for k, v in G0.frames[-1].env.items():
            for b in backs:
                w = b.frames[-1].env.get(k)
                v1, w1 = [x.off if isinstance(x, Ptr) else x for x in (v, w)]
                if isinstance(v1, T.T) and isinstance(w1, T.T) and v1.w == w1.w > 1 and v1.op != "const":
                    d = b.facts.simp(T.sub(w1, v1))
                    if T.isc(d) and T.cval(d) in (1, mask(d.w)): one = True
        return one == (f.mode == "BR")
    def done(f, B): return T.concat(B, const(0, 3))
    def outf(f, B):
        s = f.s
        return lambda i: ite(ult(T.ext(63, 3, i), B), out_byte(s.nm, s.f if f.mode == "BR" else s.padded, i), s.orig(i))
    def unitf(f, B, R):
        junk = T.fresh("junk", 8).a[0]
        def g(i):
            j = T.sub(c64(7), i)
            return ite(ult(j, T.zext(R, 64)), f.s.f(T.add(f.done(B), j)), T.uf(junk, 8, i))
        return g
    def apply(f, ex, st):
        st.mem[f.s.out] = Content(ALam(f.outf(f.B), "out"), {}, st.tok)
        if f.unit is not None: st.mem[f.unit] = Content(ALam(f.unitf(f.B, f.R), "unit"), {}, st.tok)
    def split(f, st, n):
        n = st.facts.simp(n)
        if f.mode == "T": return T.trunc(n, 61), const(0, 3)
        if f.mode in ("B", "F"): return T.ext(63, 3, n), const(0, 3)
        if n.op == "add":
            # 8B + R + c with known carries
            tmp = {}; c = T._addin(tmp, 1, n, 64) & mask(64); hi = []; lo = []
            for t, k in tmp.items(): (hi if (k & mask(64)) % 8 == 0 else lo).append((k & mask(64), t))
            low = T.linear(c % 8, lo, 64); a, b = st.facts.bnd.rng(low)
            if a // 8 == b // 8: return T.linear(c // 8 + a // 8, [(k // 8, T.trunc(t, 61)) for k, t in hi], 61), T.trunc(T.sub(low, c64(8 * (a // 8))), 3)
        return T.ext(63, 3, n), T.ext(2, 0, n)
    def goals(f, ex, st, n):
        s = f.s; B, R = f.split(st, n); out = []
        if f.mode in ("B", "F"): out.append(("progress in whole blocks", eq(T.ext(2, 0, n), const(0, 3))))
        jb = T.fresh("j", 61)
        for k in range(8):
            j = T.concat(jb, const(k, 3)); v = st.content(s.out).read(j, 1, st.dec, st.bnd)
            out.append(("output bytes 8j+%d so far" % k, or_(not_(ult(j, f.s.cap)), eq(v, f.outf(B)(j)))))
        if f.unit is not None:
            for k in range(8):
                v = st.content(f.unit).read(c64(7 - k), 1, st.dec, st.bnd)
                out.append(("partial block byte %d" % k, or_(not_(ult(const(k, 3), R)), eq(v, s.f(T.add(f.done(B), c64(k)))))))
        return out
    def nmax(f): return f.s.length if f.mode in ("BR", "F") else T.add(f.s.length, c64(7)) if f.mode == "B" else T.zext(T.ext(63, 3, T.add(f.s.length, c64(7))), 64)

def u_buffer(nm, name, inplace=False, roundtrip=False, rems=range(8)):
    def f(ctx):
        for q in (0,) if roundtrip else rems: one(ctx, q)
    def one(ctx, rem):
        # all lengths 8N + rem
        fn = ctx.func(name); st = State(); o = any_ctx(st); N = T.var("N", 61); st.facts.add(ule(N, const(1 << 57, 61)))
        length = T.concat(N, const(rem, 3)); cap = T.concat(T.add(N, const(1 if rem else 0, 61)), const(0, 3))
        def before_end(i):
            k = T.ext(2, 0, i)
            return ult(T.ext(63, 3, i), T.add(N, const(1 if T.cval(k) < rem else 0, 61))) if T.isc(k) else ult(i, length)
        if roundtrip:
            plain = inp; src = lambda i: out_byte({"E": "D", "D": "E"}[nm], plain, i)
            padded = src
        else:
            src = inp
            padded = lambda i: ite(before_end(i), inp(i), const(0, 8))
        if inplace:
            # the bytes after `length` in the buffer are whatever they are
            u = st.new("buffer", cap, "param", ALam(lambda i: ite(ult(i, length), src(i), T.uf("tail", 8, i)), "buffer")); args = [P(o), P(u), length, P(u)]; ino = u
        else:
            ino = st.new("input", length, "param", ALam(src, "input"), ro=True); u = st.new("output", cap, "param"); args = [P(o), P(ino), length, P(u)]
        base = st.content(o).base; orig = st.content(u).base
        sp = BufSpec(nm, src, u, length, lambda i: orig.get(i, lambda c: None)); sp.cap = cap; sp.padded = padded
        ov = {ENC: unit_override("E", o, base, padded, sp.cand), DEC: unit_override("D", o, base, padded, sp.cand)}
        ex = ctx.executor(ov); ex.loopspec = sp
        before = snap(st)
        for out in ctx.run(ex, st, fn, args):
            ctx.oblige(out, eq(out.result, cap), "%s: returns the length rounded up to a multiple of eight" % name)
            j = T.fresh("j", 61); k = T.fresh("k", 3); i = T.concat(j, k); out.facts.add(ult(i, cap))
            for q in range(8):
                i = T.concat(j, const(q, 3))
                v = out.content(u).read(i, 1, out.dec, out.bnd)
                if roundtrip: want = plain(i)
                else: want = out_byte(nm, padded, i)
                ctx.oblige(out, or_(not_(ult(i, cap)), eq(v, want)), "%s: output byte 8j+%d" % (name, q))
            frame(ctx, before, out, {u}, name)
    return f

def units(which, prog):
    us = []
    if "cipher" in which:
        us.append(Unit(ENC, u_encrypt))
        for k in range(8): us.append(Unit("%s keys of %s bytes" % (INIT, ",".join(map(str, range(k + 1, 57, 8)))), u_init(range(k + 1, 57, 8))))
    if "inverse" in which:
        us.append(Unit("%s inverts %s" % (DEC, ENC), u_inverse(ENC, DEC))); us.append(Unit("%s inverts %s" % (ENC, DEC), u_inverse(DEC, ENC)))
    if "buffer" in which:
        us.append(Unit("%s inverts %s" % (DEC, ENC), u_inverse(ENC, DEC)))
        for nm, name in (("E", BUFE), ("D", BUFD)):
            for h in (range(0, 8, 2), range(1, 8, 2)):
                w = ", lengths 8n+" + ",".join(map(str, h))
                us.append(Unit(name + w, u_buffer(nm, name, rems=h))); us.append(Unit(name + " in place" + w, u_buffer(nm, name, True, rems=h)))
        us.append(Unit("decrypting an encrypted buffer", u_buffer("D", BUFD, False, True)))
        us.append(Unit("decrypting an encrypted buffer in place", u_buffer("D", BUFD, True, True)))
    return us
