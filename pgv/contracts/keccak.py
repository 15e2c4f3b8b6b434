"""Contracts of the Keccak sponge functions against FIPS 202 (H05, H06).

Ghost state.  Message S[0..), output stream O[0..).
  Absorbing(B,R): chaining lanes are st(B) (st(0)=0, st(b+1) = Keccak-f(st(b) xor block b of S)), the queue holds
                  S[rB .. rB+R), R < r, and the mode fields say "absorbing".
  Squeezing(b,c): lanes are Q(b) (Q(0) = Keccak-f(st(B) xor padded last block), Q(b+1) = Keccak-f(Q(b))), the queue holds
                  O[rb .. rb+r) (the rate part of Q(b)), c <= r of them have been handed out.
  init -> Absorbing(0,0);  update: Absorbing(pos) -> Absorbing(pos+n);  digest: Absorbing/Squeezing(q), m -> output
  O[q..q+m) and Squeezing(q+m) (SHA3: the digest bytes of the standard).
"""
from .common import *
from .. import loops
from ..spec import hashes as SP

HDR = "libpgfe/hashes/sha3.h"; STRUCT = "pgfe_keccak_sponge_ctx"
FIELDS = ("state", "data_queue", "rate", "capacity", "inqueue_bits", "out_length", "nr", "squeezing", "squeezable", "ap", "ap_len", "ap_added")
def lay(): return layout(HDR, STRUCT, FIELDS)
PERM = "permutation"
RAW = {"sha3_224": 1, "sha3_256": 1, "sha3_384": 1, "sha3_512": 1}
MAXMSG = (1 << 61) - 1

def lane_off(k): return 8 * (5 * (k % 5) + k // 5)       # sequence lane k = x + 5y is A[x][y]
def S(i): return T.uf("S", 8, i)
def O(i): return T.uf("O", 8, i)
def lanes_st(B):
    if T.isc(B) and T.cval(B) == 0: return [const(0, 64)] * 25
    return [T.uf("st_%d" % k, 64, B) for k in range(25)]
def lin(r, B, j): return T.linear(j if isinstance(j, int) else 0, [(r, B)] + ([] if isinstance(j, int) else [(1, j)]), 64)
def word(f, r, B, k): return T.concat(*[f(lin(r, B, 8 * k + q)) for q in range(7, -1, -1)])
def lanes_q(r, b): return [word(O, r, b, k) if k < r // 8 else T.uf("qc_%d" % k, 64, b) for k in range(25)]
def kf(ls): return [T.uf("kf_%d" % k, 64, *ls) for k in range(25)]
def fix(ex, st, got, want):
    """got equals want: syntactically, or proved as a lemma (recorded) when reading produced case distinctions"""
    if got is want: return True
    if not any(x.op == "ite" for x in T.postorder([got])): 
        if st.facts.simp(got) is want: return True
    ok, bk, info = smt.prove(st.facts, eq(got, want), timeout=10)
    if ok and not ex.quiet: ex.obls.append(("lemma", True, bk, "lane handed to the permutation is the next message block's", None, None))
    return ok

def perm_override(sp, final=None):
    """contract of permutation(A, 24): lanes := Keccak-f(lanes), written with the ghost names st/Q where the argument is recognised"""
    r = sp.rb
    def h(ex, st, args):
        p = ex.norm_ptr(st, args[0])
        ex.access(st, p, c64(200), "state of the permutation", True)
        nr = args[1]
        ex.oblige(st, "pre", eq(nr, const(24, nr.w)), "permutation is called with 24 rounds")
        if T.isc(p.off): ls = [st.content(p.obj).read(c64(T.cval(p.off) + lane_off(k)), 8, st.dec, st.bnd) for k in range(25)]
        else: ls = [st.content(p.obj).read(T.add(p.off, c64(lane_off(k))), 8, st.dec, st.bnd) for k in range(25)]
        ls = [st.facts.simp(x) for x in ls]
        out = None
        if final is not None and all(fix(ex, st, a, b) for a, b in zip(ls, final)): out = lanes_q(r, c64(0))
        elif ls[24].op == "uf" and ls[24].a[0] == "st_24":
            B = ls[24].a[1]; base = lanes_st(B)
            want = [T.bxor(base[k], word(S, r, B, k)) if k < r // 8 else base[k] for k in range(25)]
            if all(fix(ex, st, a, b) for a, b in zip(ls, want)): out = lanes_st(T.add(B, c64(1)))
        elif ls[24].op == "uf" and ls[24].a[0] == "qc_24":
            b = ls[24].a[1]
            if all(fix(ex, st, a, w) for a, w in zip(ls, lanes_q(r, b))): out = lanes_q(r, T.add(b, c64(1)))
        if out is None: out = kf(ls)
        for k, v in enumerate(out): st.wcontent(p.obj).write(T.add(p.off, c64(lane_off(k))), 8, v, st.bnd)
        return None
    return h

def u_perm(ctx):
    ex = ctx.executor(); st = State(); fn = ctx.func(PERM)
    so = st.new("A", 200, "param", AWords(lambda i: T.uf("A", 64, i), 8)); before = snap(st)
    A = [[T.uf("A", 64, c64(5 * x + y)) for y in range(5)] for x in range(5)]
    want = SP.keccak_f(A)
    for out in ctx.run(ex, st, fn, [P(so), const(24, fn.mod.resolve(fn.params[1][1])[1])]):
        for x in range(5):
            for y in range(5):
                v = out.content(so).read(c64(8 * (5 * x + y)), 8, out.dec, out.bnd)
                a, b = T.named(v), T.named(want[x][y])
                if a is b: ctx.require(True, "permutation: lane %d,%d equals Keccak-f[1600]" % (x, y), "post", "syntactic")
                else: ctx.oblige(out, eq(a, b), "permutation: lane %d,%d equals Keccak-f[1600]" % (x, y))
        frame(ctx, before, out, {so}, PERM)

def perm_ok(prog):
    f = prog.find(PERM)
    return f is not None and len(f.params) == 2 and f.mod.resolve(f.params[0][1])[0] == "ptr" and f.mod.resolve(f.params[1][1])[0] == "i"

class KSpec:
    """one algorithm"""
    def __init__(s, alg):
        s.alg = alg; s.sp = SP.SPONGES[alg]; s.r = s.sp.rb
    def fixed(s, L):
        """fields that never change after init"""
        sp = s.sp
        f = [("rate", 8 * s.r), ("nr", 24), ("ap", sp.sval), ("ap_len", sp.sn)]
        if sp.out: f.append(("out_length", 8 * sp.out))
        return f
    def cells(s, st, o, lanes, extra):
        L = lay(); cells = {}
        for k, w in enumerate(lanes): cells[L["state"][0] + lane_off(k)] = (8, w)
        for nm, v in s.fixed(L): cells[L[nm][0]] = (L[nm][1], const(v, 8 * L[nm][1]))
        for nm, v in extra.items(): cells[L[nm][0]] = (L[nm][1], const(v, 8 * L[nm][1]) if isinstance(v, int) else v)
        for nm in FIELDS:
            if nm not in ("state", "data_queue") and L[nm][0] not in cells: cells[L[nm][0]] = (L[nm][1], T.fresh("any_" + nm, 8 * L[nm][1]))
        return cells
    def absorbing(s, st, o, B, R):
        L = lay(); q0 = L["data_queue"][0]; junk = T.fresh("jk", 8).a[0]; r = s.r
        def f(i):
            j = T.sub(i, c64(q0))
            return ite(ult(j, R), S(lin(r, B, j)), T.uf(junk, 8, i))
        return ALam(f, "absorbing"), s.cells(st, o, lanes_st(B), {"inqueue_bits": T.trunc(T.linear(0, [(8, R)], 64), 32), "squeezing": 0, "ap_added": 0})
    def squeezing(s, st, o, b, c):
        L = lay(); q0 = L["data_queue"][0]; junk = T.fresh("jk", 8).a[0]; r = s.r
        def f(i):
            j = T.sub(i, c64(q0))
            return ite(ult(j, c64(r)), O(lin(r, b, j)), T.uf(junk, 8, i))
        return ALam(f, "squeezing"), s.cells(st, o, lanes_q(r, b), {"squeezable": T.trunc(T.linear(8 * r, [(-8, c)], 64), 32), "squeezing": 1, "ap_added": 1})
    def field(s, st, o, nm):
        L = lay()
        return st.content(o).read(c64(L[nm][0]), L[nm][1], st.dec, st.bnd)
    def lanes(s, st, o):
        L = lay()
        return [st.content(o).read(c64(L["state"][0] + lane_off(k)), 8, st.dec, st.bnd) for k in range(25)]
    def pos_absorb(s, st, o):
        """(B,R) recorded in the context"""
        ls = s.lanes(st, o); t = st.facts.simp(ls[24])
        B = t.a[1] if t.op == "uf" and t.a[0] == "st_24" else c64(0) if T.isc(t) else None
        if B is None: return None
        R = st.facts.simp(X.widen(st, T.zext(X.widen(st, T.lshrc(s.field(st, o, "inqueue_bits"), 3)), 64)))
        return B, R
    def pos_squeeze(s, st, o):
        ls = s.lanes(st, o); t = st.facts.simp(ls[24])
        if not (t.op == "uf" and t.a[0] == "qc_24"): return None
        c = st.facts.simp(T.sub(c64(s.r), X.widen(st, T.zext(X.widen(st, T.lshrc(s.field(st, o, "squeezable"), 3)), 64))))
        return t.a[1], c
    def goals_common(s, st, o, extra):
        L = lay(); out = []
        for nm, v in s.fixed(L) + list(extra.items()):
            out.append(("field " + nm, eq(s.field(st, o, nm), const(v, 8 * L[nm][1]) if isinstance(v, int) else v)))
        return out
    def queue(s, st, o, n, f):
        L = lay(); j = T.zext(T.fresh("j", 8), 64); i = T.add(c64(L["data_queue"][0]), j)
        v = st.content(o).read(i, 1, st.dec, lambda t: st.bnd(t) if t is not i else (L["data_queue"][0], L["data_queue"][0] + s.r - 1))
        return or_(not_(and_(ult(j, n), ult(j, c64(s.r)))), eq(v, f(j)))
    def goals_absorb(s, st, o, p):
        br = s.pos_absorb(st, o)
        if br is None: return [("chaining lanes are a state of the absorbed message", FALSE)]
        B, R = br; out = []
        out.append(("position", and_(eq(p, lin(s.r, B, R)), ult(R, c64(s.r)))))
        for k, (a, b) in enumerate(zip(s.lanes(st, o), lanes_st(B))): out.append(("lane %d" % k, eq(a, b)))
        out += s.goals_common(st, o, {"squeezing": 0, "ap_added": 0, "inqueue_bits": T.trunc(T.linear(0, [(8, R)], 64), 32)})
        out.append(("queue holds the message tail", s.queue(st, o, R, lambda j: S(lin(s.r, B, j)))))
        return out
    def goals_squeeze(s, st, o, q):
        bc = s.pos_squeeze(st, o)
        if bc is None: return [("lanes are a state of the output stream", FALSE)]
        b, c = bc; r = s.r
        out = [("output position", and_(eq(q, lin(r, b, c)), ule(c, c64(r))))]
        for k, (x, y) in enumerate(zip(s.lanes(st, o), lanes_q(r, b))): out.append(("lane %d" % k, eq(x, y)))
        out += s.goals_common(st, o, {"squeezing": 1, "ap_added": 1, "squeezable": T.trunc(T.linear(8 * r, [(-8, c)], 64), 32)} if not s.sp.out else {"squeezing": 1, "ap_added": 1, "squeezable": T.trunc(T.linear(8 * r, [(-8, c)], 64), 32)})
        out.append(("queue holds the output block", s.queue(st, o, c64(r), lambda j: O(lin(r, b, j)))))
        return out

class AbsorbSpec(loops.LoopSpec):
    coefs = (8, 1, -8, -1)
    def __init__(s, K, o, total): s.K = K; s.o = o; s.total = total
    def start(s, ex, st):
        br = s.K.pos_absorb(st, s.o)
        if br is None or not (T.isc(s.K.field(st, s.o, "squeezing")) and T.cval(s.K.field(st, s.o, "squeezing")) == 0): return [loops.Family()]
        return [AbsorbFam(s, br, m) for m in ("BR", "B", "R")]
class AbsorbFam(loops.Family):
    coefs = (8, 1, -8, -1); align = 3
    def __init__(f, spec, br, mode): f.s = spec; f.br = br; f.mode = mode
    def fresh(f, ex, st):
        K = f.s.K; B0, R0 = f.br; f.p0 = lin(K.r, B0, R0)
        f.B = T.fresh("B", 64) if f.mode != "R" else B0
        f.R = T.zext(T.fresh("R", 8), 64) if f.mode != "B" else R0
        f.p = lin(K.r, f.B, f.R); f.managed = (f.s.o,)
        if f.mode == "B": f.n = T.sub(f.B, B0); f.unit = K.r; f.coefs = (8 * K.r, K.r, 1, -1, -K.r)
        else: f.n = T.sub(f.p, f.p0); f.unit = 1
        return [ule(f.p0, f.p), ule(f.p, f.s.total), ule(f.B, c64(MAXMSG // K.r)), ult(f.R, c64(K.r))]
    def apply(f, ex, st):
        base, cells = f.s.K.absorbing(st, f.s.o, f.B, f.R)
        L = lay(); old = st.content(f.s.o)
        for nm in ("capacity", "squeezable") + (() if f.s.K.sp.out else ("out_length",)): cells[L[nm][0]] = (L[nm][1], old.read(c64(L[nm][0]), L[nm][1], st.dec, st.bnd))
        st.mem[f.s.o] = Content(base, cells, st.tok)
    def goals(f, ex, st, n):
        return f.s.K.goals_absorb(st, f.s.o, T.linear(0, [(1, f.p0), (f.unit, n)], 64))
    def nmax(f): return T.sub(f.s.total, f.p0) if f.unit == 1 else c64(MAXMSG // f.s.K.r)
    def plausible(f, ex, G0, backs):
        K = f.s.K; o = f.s.o
        same = lambda b, g: b.facts.simp(g(b)) is b.facts.simp(g(G0))
        R = lambda st: K.field(st, o, "inqueue_bits"); A = lambda st: K.lanes(st, o)[24]
        if f.mode == "B": return bool(backs) and all(same(b, R) for b in backs)
        if f.mode == "R": return bool(backs) and all(same(b, A) for b in backs)
        return not (bool(backs) and (all(same(b, R) for b in backs) or all(same(b, A) for b in backs)))

class SqueezeSpec(loops.LoopSpec):
    coefs = (8, 1, -8, -1)
    def __init__(s, K, o, out, q0, m, orig): s.K = K; s.o = o; s.out = out; s.q0 = q0; s.m = m; s.orig = orig
    def start(s, ex, st):
        bc = s.K.pos_squeeze(st, s.o)
        if bc is None: return [loops.Family()]
        return [SqueezeFam(s, bc)]
class SqueezeFam(loops.Family):
    coefs = (8, 1, -8, -1); align = 3
    def __init__(f, spec, bc): f.s = spec; f.bc = bc
    def fresh(f, ex, st):
        s = f.s; r = s.K.r; b0, c0 = f.bc; f.p0 = lin(r, b0, c0)
        f.b = T.fresh("b", 64); f.c = T.zext(T.fresh("c", 8), 64); f.p = lin(r, f.b, f.c); f.n = T.sub(f.p, f.p0); f.managed = (s.o, s.out)
        f.done0 = T.sub(f.p0, s.q0)          # output bytes written before the loop
        return [ule(f.p0, f.p), ule(f.p, T.add(s.q0, s.m)), ule(f.b, c64((1 << 62) // r)), ule(f.c, c64(r))]
    def outf(f, n):
        s = f.s; d = T.add(f.done0, n)
        return lambda i: ite(ult(i, d), O(T.add(s.q0, i)), s.orig(i))
    def apply(f, ex, st):
        s = f.s; L = lay(); old = st.content(s.o)
        base, cells = s.K.squeezing(st, s.o, f.b, f.c)
        for nm in ("capacity", "inqueue_bits", "out_length"): cells[L[nm][0]] = (L[nm][1], old.read(c64(L[nm][0]), L[nm][1], st.dec, st.bnd))
        st.mem[s.o] = Content(base, cells, st.tok)
        st.mem[s.out] = Content(ALam(f.outf(f.n), "out"), {}, st.tok)
    def goals(f, ex, st, n):
        s = f.s
        out = s.K.goals_squeeze(st, s.o, T.add(f.p0, n))
        L = lay()
        if not s.K.sp.out: pass
        j = T.fresh("j", 64)
        v = st.content(s.out).read(j, 1, st.dec, st.bnd)
        out.append(("output so far", or_(not_(ult(j, s.m)), eq(v, f.outf(n)(j)))))
        return out
    def nmax(f): return T.sub(T.add(f.s.q0, f.s.m), f.p0)

def ovr(prog, K, final=None): return {PERM: perm_override(K.sp, final)} if perm_ok(prog) else {}

def u_init(alg):
    def f(ctx):
        K = KSpec(alg); L = lay(); ex = ctx.executor(ovr(ctx.prog, K)); st = State()
        o = st.new("ctx", L[""], "param"); before = snap(st); nm = "pgfe_%s_init" % alg
        for out in ctx.run(ex, st, ctx.func(nm), [P(o)]):
            for d, t in K.goals_absorb(out, o, c64(0)): ctx.oblige(out, t, "%s: %s" % (nm, d))
            frame(ctx, before, out, {o}, nm)
    return f
def u_update(alg):
    def f(ctx):
        K = KSpec(alg); L = lay(); ex = ctx.executor(ovr(ctx.prog, K)); st = State(); nm = "pgfe_%s_update" % alg
        o = st.new("ctx", L[""], "param"); length = T.var("length", 64); B0 = T.var("B0", 64); R0 = T.zext(T.var("R0", 8), 64)
        p0 = lin(K.r, B0, R0); total = T.add(p0, length)
        inp = st.new("input", length, "param", ALam(lambda i: S(T.add(p0, i)), "input"), ro=True)
        for q in (ule(B0, c64(MAXMSG // K.r)), ult(R0, c64(K.r)), ule(length, c64(MAXMSG)), ule(total, c64(MAXMSG)), ule(p0, total)): st.facts.add(q)
        base, cells = K.absorbing(st, o, B0, R0); st.mem[o] = Content(base, cells, st.tok)
        ex.loopspec = AbsorbSpec(K, o, total); before = snap(st)
        for out in ctx.run(ex, st, ctx.func(nm), [P(o), P(inp), length]):
            for d, t in K.goals_absorb(out, o, total): ctx.oblige(out, t, "%s: %s" % (nm, d))
            frame(ctx, before, out, {o}, nm)
    return f
def final_lanes(K, B, R):
    r = K.r; base = lanes_st(B)
    blk = K.sp.padded([S(lin(r, B, j)) for j in range(R)])
    return [T.bxor(base[k], T.concat(*reversed(blk[8 * k:8 * k + 8]))) if k < r // 8 else base[k] for k in range(25)]
def u_digest(alg, Rs):
    """fixed-length SHA3, and the first extraction of an extendable-output function"""
    def f(ctx):
        K = KSpec(alg); L = lay(); nm = "pgfe_%s_digest" % alg; fn = ctx.func(nm)
        for R in Rs:
            B = T.var("B", 64); fin = final_lanes(K, B, R); ex = ctx.executor(ovr(ctx.prog, K, fin)); st = State()
            st.facts.add(ule(B, c64(MAXMSG // K.r)))
            o = st.new("ctx", L[""], "param")
            base, cells = K.absorbing(st, o, B, c64(R)); st.mem[o] = Content(base, cells, st.tok)
            run_digest(ctx, ex, st, K, fn, o, c64(0), "%s (%d tail bytes)" % (nm, R))
    return f
def u_squeeze(alg):
    """later extractions continue the stream"""
    def f(ctx):
        K = KSpec(alg); L = lay(); nm = "pgfe_%s_digest" % alg; fn = ctx.func(nm)
        ex = ctx.executor(ovr(ctx.prog, K)); st = State(); o = st.new("ctx", L[""], "param")
        b = T.var("b0", 64); c = T.zext(T.var("c0", 8), 64); q0 = lin(K.r, b, c)
        for q in (ule(b, c64((1 << 61) // K.r)), ule(c, c64(K.r))): st.facts.add(q)
        base, cells = K.squeezing(st, o, b, c); st.mem[o] = Content(base, cells, st.tok)
        run_digest(ctx, ex, st, K, fn, o, q0, nm + " (repeated)")
    return f
def run_digest(ctx, ex, st, K, fn, o, q0, what):
    out_n = K.sp.out
    m = c64(out_n) if out_n else T.var("m", 64)
    if not out_n: st.facts.add(ule(m, c64((1 << 61) - 1))); 
    st.facts.add(ule(q0, c64(1 << 61)))
    buf = st.new("output", m, "param"); orig = st.content(buf).base
    ex.loopspec = SqueezeSpec(K, o, buf, q0, m, lambda i: orig.get(i, lambda c: None)); before = snap(st)
    args = [P(o), P(buf)] + ([] if out_n else [T.linear(0, [(8, m)], 64)])
    for out in ctx.run(ex, st, fn, args):
        if out_n:
            for j in range(out_n):
                v = out.content(buf).read(c64(j), 1, out.dec, out.bnd)
                ctx.oblige(out, eq(v, O(T.add(q0, c64(j)))), "%s: output byte %d" % (what, j))
        else:
            j = T.fresh("j", 64); v = out.content(buf).read(j, 1, out.dec, out.bnd)
            ctx.oblige(out, or_(not_(ult(j, m)), eq(v, O(T.add(q0, j)))), "%s: every requested byte is the output stream's" % what)
            for d, t in K.goals_squeeze(out, o, T.add(q0, m)): ctx.oblige(out, t, "%s: %s" % (what, d))
        frame(ctx, before, out, {o, buf}, what)

def units(algs, prog):
    us = []
    if perm_ok(prog): us.append(Unit("permutation contract", u_perm))
    for a in algs:
        K = KSpec(a)
        us.append(Unit("pgfe_%s_init" % a, u_init(a))); us.append(Unit("pgfe_%s_update" % a, u_update(a)))
        step = -(-K.r // 4)
        for k in range(0, K.r, step): us.append(Unit("pgfe_%s_digest tails %d.." % (a, k), u_digest(a, range(k, min(K.r, k + step)))))
        if not K.sp.out: us.append(Unit("pgfe_%s_digest repeated" % a, u_squeeze(a)))
    return us
