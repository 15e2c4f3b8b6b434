"""Contracts of the streaming hash functions against the standards (H01..H04).

Ghost state of a context: the message absorbed so far is S[0 .. pos), pos = rb*B + R.  Canon(B,R) says: the chaining
words equal st(B) (st(0) = IV, st(b+1) = compress(st(b), S[rb*b ..])), the block buffer holds the tail
S[rb*B .. rb*B+R) and the length/index fields encode pos.
  init:    any context            -> Canon(0,0)
  update:  Canon(pos), input[0..n) = S[pos..pos+n)  -> Canon(pos+n)
  digest:  Canon(pos)             -> output = pad-and-finish of the standard
"""
from .common import *
from .. import loops
from ..spec import hashes as SP

H = "libpgfe/hashes/"
class MDImpl:
    def __init__(s, alg, header, struct, fields, init, update, digest, cmpfn, cmpargs):
        s.alg = alg; s.spec = SP.MDS[alg]; s.header = H + header; s.struct = struct; s.fields = fields
        s.init = init; s.update = update; s.digest = digest; s.cmpfn = cmpfn; s.cmpargs = cmpargs
SHAF = ("state", "len_low", "len_high", "index", "block")
def _sha(alg, hdr, struct, cmpfn): return MDImpl(alg, hdr, struct, SHAF, "pgfe_%s_init" % alg, "pgfe_%s_update" % alg, "pgfe_%s_digest" % alg, cmpfn, "ctx")
IMPLS = {
    "md5": MDImpl("md5", "md5.h", "pgfe_md5_ctx", ("state", "block_len", "block"), "pgfe_md5_init", "pgfe_md5_update", "pgfe_md5_digest", "md5_transform", "sb"),
    "sha1": _sha("sha1", "sha1.h", "pgfe_sha1_ctx", "sha1_process_block"),
    "sha224": _sha("sha224", "sha2.h", "pgfe_sha256_ctx", "sha256_process_block"),
    "sha256": _sha("sha256", "sha2.h", "pgfe_sha256_ctx", "sha256_process_block"),
    "sha384": _sha("sha384", "sha2.h", "pgfe_sha512_ctx", "sha384n512_process_block"),
    "sha512": _sha("sha512", "sha2.h", "pgfe_sha512_ctx", "sha384n512_process_block"),
    "sha512_224": _sha("sha512_224", "sha2.h", "pgfe_sha512_ctx", "sha384n512_process_block"),
    "sha512_256": _sha("sha512_256", "sha2.h", "pgfe_sha512_ctx", "sha384n512_process_block"),
}

# ------------------------------------------------------------------ the compression function and its contract
def cmp_key(spec): return "cmp_" + spec.compress.__name__
def cmp_uf(spec, st, blk):
    """the compression function as an uninterpreted symbol (used by callers of a function proved to compute it)"""
    return [T.uf("%s_%d" % (cmp_key(spec), k), spec.ww, *(list(st) + [concat_be(blk[i:i + 8]) for i in range(0, spec.rb, 8)])) for k in range(spec.nw)]
def concat_be(bs): return T.concat(*bs)

def lay(I): return layout(I.header, I.struct, I.fields)
def read_state(I, st, o, L):
    wn = I.spec.ww // 8
    return [st.content(o).read(c64(L["state"][0] + wn * k), wn, st.dec, st.bnd) for k in range(I.spec.nw)]
def read_blk(I, st, o, off):
    return [st.content(o).read(T.add(off, c64(j)), 1, st.dec, st.bnd) for j in range(I.spec.rb)]

def has_ite(t): return any(x.op == "ite" for x in T.postorder([t]))
def block_bytes(ex, st, bo, rb, g):
    """the rb bytes at bo; if they are message bytes only by case distinctions, establish that once for an arbitrary index"""
    bs = [st.facts.simp(st.content(bo.obj).read(T.add(bo.off, c64(j)), 1, st.dec, st.bnd)) for j in range(rb)]
    if g is None or not any(has_ite(b) for b in bs): return bs
    for p in dict.fromkeys(x for x in (st.ghost.get("pos"),) if x is not None):
        B, R = g.split(p, st.facts)
        j = T.fresh("j", 64); i = T.add(bo.off, j)
        f2 = st.facts.copy(); f2.add(ult(j, c64(rb)))
        lo, hi = st.bnd(bo.off)
        v = st.content(bo.obj).read(i, 1, st.dec, lambda t: st.bnd(t) if t is not i else (lo, hi + rb - 1))
        goal = eq(v, g.S(T.add(g.first(B), fitp(j, g.pw))))
        ok, bk, info = smt.prove(f2, goal, timeout=10)
        if ok:
            if not ex.quiet: ex.obls.append(("lemma", True, bk, "the block handed to the compression function is the next message block", None, None))
            return [g.S(T.add(g.first(B), const(q, g.pw))) for q in range(rb)]
    return bs

def cmp_override(I, L, g=None):
    """callers see only the contract: chaining words become compress(words, block); nothing else changes but index := 0"""
    wn = I.spec.ww // 8
    def h(ex, st, args):
        p = ex.norm_ptr(st, args[0])
        if I.cmpargs == "ctx":
            ex.access(st, p, c64(L[""]), "context of " + I.cmpfn, True)
            so, bo = p, Ptr(p.obj, T.add(p.off, c64(L["block"][0])))
            so = Ptr(p.obj, T.add(p.off, c64(L["state"][0])))
        else:
            so = p; bo = ex.norm_ptr(st, args[1])
            ex.access(st, so, c64(wn * I.spec.nw), "state of " + I.cmpfn, True); ex.access(st, bo, c64(I.spec.rb), "block of " + I.cmpfn)
        ws = [st.content(so.obj).read(T.add(so.off, c64(wn * k)), wn, st.dec, st.bnd) for k in range(I.spec.nw)]
        bs = block_bytes(ex, st, bo, I.spec.rb, g)
        out = cmp_uf(I.spec, ws, bs)
        for k, v in enumerate(out): st.wcontent(so.obj).write(T.add(so.off, c64(wn * k)), wn, v, st.bnd)
        if I.cmpargs == "ctx" : st.wcontent(p.obj).write(T.add(p.off, c64(L["index"][0])), L["index"][1], const(0, 8 * L["index"][1]), st.bnd)
        return None
    return h

def u_compress(I):
    def f(ctx):
        L = lay(I); wn = I.spec.ww // 8
        fn = ctx.func(I.cmpfn); ex = ctx.executor(); st = State()
        words = [T.var("h%d" % k, I.spec.ww) for k in range(I.spec.nw)]; blk = [T.var("m%d" % j, 8) for j in range(I.spec.rb)]
        if I.cmpargs == "ctx":
            o = st.new("ctx", L[""], "param"); args = [P(o)]
            for k, w in enumerate(words): st.wcontent(o).write(c64(L["state"][0] + wn * k), wn, w, st.bnd)
            for j, b in enumerate(blk): st.wcontent(o).write(c64(L["block"][0] + j), 1, b, st.bnd)
            so = o; sb = L["state"][0]
        else:
            so = st.new("state", wn * I.spec.nw, "param"); bo = st.new("block", I.spec.rb, "param", ro=True); args = [P(so), P(bo)]; sb = 0
            for k, w in enumerate(words): st.wcontent(so).write(c64(wn * k), wn, w, st.bnd)
            for j, b in enumerate(blk): st.wcontent(bo).write(c64(j), 1, b, st.bnd)
        before = snap(st)
        want = I.spec.compress(words, blk)
        for out in ctx.run(ex, st, fn, args):
            for k in range(I.spec.nw):
                v = out.content(so).read(c64(sb + wn * k), wn, out.dec, out.bnd)
                ctx.oblige(out, eq(v, want[k]), "%s: chaining word %d equals the standard's compression function" % (I.cmpfn, k))
            frame(ctx, before, out, {so}, I.cmpfn)
            if I.cmpargs == "ctx":
                ix = out.content(o).read(c64(L["index"][0]), L["index"][1], out.dec, out.bnd)
                ctx.oblige(out, eq(ix, const(0, ix.w)), I.cmpfn + ": index is reset")
                for nm in I.fields:
                    if nm in ("state", "index"): continue
                    off, sz = L[nm]
                    same = all(X_same(out.content(o).read(c64(off + q), 1, out.dec, out.bnd), before[o][0].read(c64(off + q), 1, out.dec, out.bnd) if False else Content(before[o][1], before[o][2]).read(c64(off + q), 1, out.dec, out.bnd)) for q in range(sz))
                    ctx.require(same, "%s: field %s unchanged" % (I.cmpfn, nm), "frame")
    return f

# ------------------------------------------------------------------ Canon
class Ghost:
    """message, position split, junk"""
    def __init__(g, I, cmp=None):
        g.I = I; s = I.spec; g.pw = s.posw; g.rb = s.rb; g.rw = s.rb.bit_length() - 1; g.cmp = cmp or (lambda st, b: cmp_uf(s, st, b))
        g.bw = g.pw - g.rw
    def S(g, i): return T.uf("S", 8, i)
    def first(g, B): return T.concat(B, const(0, g.rw))
    def pos(g, B, R):
        """pw-bit position; R: rw-bit term, B: bw-bit term"""
        return T.concat(B, R)
    def split(g, p, facts=None):
        """p = rb*B + R with R < rb, using what the path knows about carries"""
        if facts is not None:
            p = facts.simp(p)
            tmp = {}
            c = T._addin(tmp, 1, p, p.w) & mask(p.w)
            hi = []; lo = []
            for t, k in tmp.items():
                if (k & mask(p.w)) % g.rb == 0: hi.append(((k & mask(p.w)) // g.rb, t))
                else: lo.append((k, t))
            low = T.linear(c % g.rb, lo, p.w)
            l, h = facts.bnd.rng(low)
            if l // g.rb == h // g.rb:
                m = l // g.rb
                B = T.linear(c // g.rb + m, [(k, T.trunc(t, g.bw)) for k, t in hi], g.bw)
                return B, T.trunc(T.sub(low, const(m * g.rb, p.w)), g.rw)
        return T.ext(g.pw - 1, g.rw, p), T.ext(g.rw - 1, 0, p)
    def st(g, B):
        """chaining words after B blocks; unfolds B = b + c for small constants c"""
        if T.isc(B) and T.cval(B) == 0: return g.I.spec.ivt()
        if T.isc(B) or B.op == "add":
            c = T.cval(B) if T.isc(B) else B.a[0]
            if 0 < c <= 4:
                B0 = T.sub(B, const(1, B.w))
                return g.cmp(g.st(B0), [g.S(T.add(T.concat(B0, const(0, g.rw)), const(j, g.pw))) for j in range(g.rb)])
        return [T.uf("st_%d" % k, g.I.spec.ww, B) for k in range(g.I.spec.nw)]
    def lencells(g, p):
        """[(field, value)] for position p"""
        I = g.I; L = lay(I)
        if "block_len" in I.fields: return [("block_len", p)]
        n = L["len_low"][1] * 8
        bits = T.concat(T.ext(g.pw - 4, 0, p), const(0, 3))
        # 2*n == width of the length field
        if 2 * n < bits.w: bits = T.trunc(bits, 2 * n)
        return [("len_low", T.ext(n - 1, 0, bits)), ("len_high", T.ext(2 * n - 1, n, bits)), ("index", T.zext(T.ext(g.rw - 1, 0, p), L["index"][1] * 8))]
    def content(g, p, junk=None):
        """base byte function and cells of a canonical context at position p"""
        I = g.I; L = lay(I); wn = I.spec.ww // 8
        junk = junk or T.fresh("jk", 8).a[0]
        B, R = g.split(p); bo = L["block"][0]
        R64 = T.zext(R, 64); start = T.concat(B, const(0, g.rw))
        def f(i):
            j = T.sub(i, c64(bo))
            v = ite(ult(j, R64), g.S(T.add(start, fitp(j, g.pw))), T.uf(junk, 8, i))
            return v
        cells = {}
        for k, w in enumerate(g.st(B)): cells[L["state"][0] + wn * k] = (wn, w)
        for nm, v in g.lencells(p): cells[L[nm][0]] = (L[nm][1], v)
        return ALam(f, "canon"), cells
    def goals(g, st, o, p, skip=()):
        """[(desc, goal)] the context o of state st is canonical at p"""
        I = g.I; L = lay(I); wn = I.spec.ww // 8
        B, R = g.split(p, st.facts); out = []
        got = [st.content(o).read(c64(L["state"][0] + wn * k), wn, st.dec, st.bnd) for k in range(I.spec.nw)]
        for k, (a, b) in enumerate(zip(got, g.st(B))): out.append(("chaining word %d" % k, eq(a, b)))
        for nm, v in g.lencells(p):
            if nm in skip: continue
            out.append(("field " + nm, eq(st.content(o).read(c64(L[nm][0]), L[nm][1], st.dec, st.bnd), v)))
        j = T.fresh("j", g.rw); i = T.add(c64(L["block"][0]), T.zext(j, 64))
        v = st.content(o).read(i, 1, st.dec, lambda t: st.bnd(t) if t is not i else (L["block"][0], L["block"][0] + g.rb - 1))
        want = g.S(T.add(T.concat(B, const(0, g.rw)), T.zext(j, g.pw)))
        out.append(("block buffer holds the message tail", or_(not_(ult(j, R)), eq(v, want))))
        return out
    def decode(g, st, o):
        """position recorded in the length fields"""
        I = g.I; L = lay(I)
        rd = lambda nm: st.content(o).read(c64(L[nm][0]), L[nm][1], st.dec, st.bnd)
        if "block_len" in I.fields: return st.facts.simp(rd("block_len"))
        b = T.concat(rd("len_high"), rd("len_low"))
        p = T.lshrc(b, 3)
        if p.w < g.pw: p = T.zext(p, g.pw)
        return st.facts.simp(p)
    def chain(g, st, o):
        """position up to which the chaining words account for the message, read off their term"""
        I = g.I; wn = I.spec.ww // 8; c = 0
        v = st.facts.simp(st.content(o).read(c64(lay(I)["state"][0]), wn, st.dec, st.bnd))
        while v.op == "uf" and v.a[0] == cmp_key(I.spec) + "_0" and c < 4: v = v.a[1]; c += 1
        if v.op == "uf" and v.a[0] == "st_0": B = v.a[1]
        elif v is I.spec.ivt()[0]: B = const(0, g.bw)
        else: return None
        return st.facts.simp(g.first(T.add(B, const(c, g.bw))))
def fitp(t, w): return t if t.w == w else T.zext(t, w) if t.w < w else T.trunc(t, w)

def widen(st, t):
    """zext(a + b) as zext(a) + zext(b) inside t where the sum provably stays within its width"""
    sub = {}
    for x in T.postorder([t]):
        if x.op == "concat" and len(x.a) == 2 and T.isc(x.a[0]) and T.cval(x.a[0]) == 0 and x.a[1].op == "add":
            y = x.a[1]; c, ts = y.a; lo = hi = T.sgn(c, y.w)
            for k, v in ts:
                k = T.sgn(k, y.w); a, b = st.facts.bnd.rng(v); lo += k * (a if k > 0 else b); hi += k * (b if k > 0 else a)
            if 0 <= lo and hi < 1 << y.w: sub[x] = T.linear(T.sgn(c, y.w), [(T.sgn(k, y.w), T.zext(v, x.w)) for k, v in ts], x.w)
    return T.subst(t, sub) if sub else t
class UpdateSpec(loops.LoopSpec):
    def __init__(s, g, ctxo, total, pos0): s.g = g; s.o = ctxo; s.total = total; s.pos0 = pos0
    def start(s, ex, st):
        g = s.g; out = []
        cands = []
        for p in (st.ghost.get("pos"), g.decode(st, s.o), g.chain(st, s.o)):
            if p is not None and not any(p is q for q in cands): cands.append(p)
        for skip in ((), ("index",), ("len_low", "len_high", "block_len"), ("len_low", "len_high", "block_len", "index")):
            for p in cands:
                for mode in ("BR", "B", "R"): out.append(PosFamily(s, p, mode, skip))
        return out
class PosFamily(loops.Family):
    def __init__(f, spec, p0, mode, skip): f.s = spec; f.p0 = p0; f.mode = mode; f.skip = skip
    def fresh(f, ex, st):
        g = f.s.g
        B0, R0 = g.split(f.p0)
        f.B = T.fresh("B", g.bw) if f.mode != "R" else B0
        f.R = T.fresh("R", g.rw) if f.mode != "B" else R0
        f.p = g.pos(f.B, f.R)
        f.n = T.sub(f.p, f.p0)
        f.managed = (f.s.o,)
        return [ule(f.p0, f.p), ule(f.p, f.s.total)]
    def at(f, n): return T.add(f.p0, fitp(n, f.s.g.pw))
    def apply(f, ex, st):
        base, cells = f.s.g.content(f.p)
        old = st.content(f.s.o)
        L = lay(f.s.g.I)
        for nm in f.skip:
            if nm in L: cells[L[nm][0]] = (L[nm][1], old.read(c64(L[nm][0]), L[nm][1], st.dec, st.bnd))
        st.mem[f.s.o] = Content(base, cells, st.tok); st.ghost["pos"] = f.p
    def unmanaged(f, o):
        L = lay(f.s.g.I)
        return {L[nm][0] for nm in f.skip if nm in L}
    def goals(f, ex, st, n):
        p = f.p0 if T.isc(n) and T.cval(n) == 0 else widen(st, st.facts.simp(f.at(n)))
        return f.s.g.goals(st, f.s.o, p, f.skip)
    def nmax(f): return T.sub(f.s.total, f.p0)
    def names(f, n): return [("pos", lambda m: fitp(f.at(m), 64)), ("blocks", lambda m: fitp(T.ext(f.s.g.pw - 1, f.s.g.rw, f.at(m)), 64)),
                             ("tail", lambda m: T.zext(T.ext(f.s.g.rw - 1, 0, f.at(m)), 64))]

def overrides(I, prog, inline, g=None):
    if inline or prog.find(I.cmpfn) is None: return {}
    return {I.cmpfn: cmp_override(I, lay(I), g)}
def ghost(I, prog, inline):
    if inline or prog.find(I.cmpfn) is None: return Ghost(I, I.spec.compress)
    return Ghost(I)

def u_init(I, inline=False):
    def f(ctx):
        L = lay(I); ex = ctx.executor(overrides(I, ctx.prog, inline)); st = State(); g = ghost(I, ctx.prog, inline)
        o = st.new("ctx", L[""], "param"); before = snap(st)
        for out in ctx.run(ex, st, ctx.func(I.init), [P(o)]):
            for d, t in g.goals(out, o, const(0, g.pw)): ctx.oblige(out, t, "%s: %s" % (I.init, d))
            frame(ctx, before, out, {o}, I.init)
        st = State(); before = snap(st)
        for out in ctx.run(ex, st, ctx.func(I.init), [NULL]): frame(ctx, before, out, set(), I.init + "(NULL)")
    return f

LIM = {64: (1 << 61) - 1, 128: (1 << 125) - 1}
def u_update(I, inline=False):
    def f(ctx):
        L = lay(I); g = ghost(I, ctx.prog, inline); ex = ctx.executor(overrides(I, ctx.prog, inline, g)); st = State()
        o = st.new("ctx", L[""], "param")
        length = T.var("length", 64); B0 = T.var("B0", g.bw); R0 = T.var("R0", g.rw); p0 = g.pos(B0, R0)
        total = T.add(p0, fitp(length, g.pw))
        inp = st.new("input", length, "param", ALam(lambda i: g.S(T.add(p0, fitp(i, g.pw))), "input"), ro=True)
        lim = const(LIM[g.pw], g.pw)
        for q in (ule(p0, lim), ule(fitp(length, g.pw), lim), ule(p0, total), ule(total, lim)): st.facts.add(q)
        if g.pw > 64: st.facts.add(ule(length, c64((1 << 63) - 1)))
        base, cells = g.content(p0)
        st.mem[o] = Content(base, cells, st.tok); st.ghost["pos"] = p0
        ex.loopspec = UpdateSpec(g, o, total, p0)
        before = snap(st)
        for out in ctx.run(ex, st, ctx.func(I.update), [P(o), P(inp), length]):
            for d, t in g.goals(out, o, out.facts.simp(total)): ctx.oblige(out, t, "%s: %s" % (I.update, d))
            frame(ctx, before, out, {o}, I.update)
    return f
def u_update_null(I, inline=False):
    def f(ctx):
        L = lay(I); g = ghost(I, ctx.prog, inline)
        for which in ("ctx", "input"):
            ex = ctx.executor(overrides(I, ctx.prog, inline)); st = State(); n = T.var("length", 64)
            o = st.new("buf", L[""] if which == "input" else n, "param", ro=True); before = snap(st)
            args = [P(o), NULL, n] if which == "input" else [NULL, P(o), n]
            for out in ctx.run(ex, st, ctx.func(I.update), args): frame(ctx, before, out, set(), "%s with %s NULL does nothing" % (I.update, which))
    return f
def u_digest(I, rs, inline=False):
    def f(ctx):
        L = lay(I); g = ghost(I, ctx.prog, inline); s = I.spec
        for r in rs:
            ex = ctx.executor(overrides(I, ctx.prog, inline)); st = State()
            o = st.new("ctx", L[""], "param"); out_ = st.new("output", s.out, "param")
            B = T.var("B", g.bw); p = g.pos(B, const(r, g.rw))
            st.facts.add(ule(p, const(LIM[g.pw], g.pw)))
            base, cells = g.content(p); st.mem[o] = Content(base, cells, st.tok); st.ghost["pos"] = p
            ex.loopspec = UpdateSpec(g, o, const(LIM[g.pw], g.pw), p)
            before = snap(st)
            start = T.concat(B, const(0, g.rw))
            lenbits = T.trunc(T.concat(T.ext(g.pw - 4, 0, p), const(0, 3)), 8 * s.lb)
            data = [g.S(T.add(start, const(j, g.pw))) for j in range(r)]
            h = g.st(B)
            for b in s.padded(data, lenbits): h = g.cmp(h, b)
            want = s.outbytes(h)
            for out in ctx.run(ex, st, ctx.func(I.digest), [P(o), P(out_)]):
                for j in range(s.out):
                    v = out.content(out_).read(c64(j), 1, out.dec, out.bnd)
                    ctx.oblige(out, eq(v, want[j]), "%s: byte %d for %d tail bytes" % (I.digest, j, r))
                frame(ctx, before, out, {o, out_}, I.digest)
    return f
def u_digest_null(I, inline=False):
    def f(ctx):
        L = lay(I); g = ghost(I, ctx.prog, inline)
        for which in ("ctx", "output"):
            ex = ctx.executor(overrides(I, ctx.prog, inline)); st = State()
            o = st.new("buf", L[""] if which == "output" else I.spec.out, "param", ro=True); before = snap(st)
            args = [P(o), NULL] if which == "output" else [NULL, P(o)]
            for out in ctx.run(ex, st, ctx.func(I.digest), args): frame(ctx, before, out, set(), "%s with %s NULL does nothing" % (I.digest, which))
    return f

def md_units(algs, prog):
    us = []
    seen = set()
    for a in algs:
        I = IMPLS[a]
        inline = False
        if I.cmpfn not in seen and prog.find(I.cmpfn) is not None:
            seen.add(I.cmpfn); us.append(Unit("%s contract" % I.cmpfn, u_compress(I)))
        us.append(Unit(I.init, u_init(I)))
        us.append(Unit(I.update, u_update(I)))
        us.append(Unit(I.update + " NULL", u_update_null(I)))
        us.append(Unit(I.digest + " NULL", u_digest_null(I)))
        rb = I.spec.rb; step = rb // 8
        for k in range(0, rb, step): us.append(Unit("%s tails %d..%d" % (I.digest, k, k + step - 1), u_digest(I, range(k, k + step))))
    return us
