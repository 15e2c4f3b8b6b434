"""HMAC (M01), HOTP (O01) and TOTP (O02) on top of the streaming hash contracts; everything else is executed as it is."""
from .api import *

HH = "libpgfe/hmac/hmac.h"
def hmac_size(alg): return cexpr(HH, {a: "sizeof(struct pgfe_hmac_%s_ctx)" % a for a in FIXED})[alg]
def choice(alg): return cexpr(HH, {a: a.upper() for a in FIXED})[alg]

class Spec:
    """RFC 2104 for one algorithm and key; key: byte function over 64-bit indices, kl: its length"""
    def __init__(s, alg, key, kl):
        s.alg = alg; b = BLOCK[alg]
        s.keymsg = msg(seg_f(key(PROBE), kl)); short = ule(kl, c64(b))
        def k(i):
            long = dg(alg, s.keymsg, i) if i < FIXED[alg] else const(0, 8)
            return ite(short, ite(ult(c64(i), kl), key(c64(i)), const(0, 8)), long)
        s.ipad = [T.bxor(k(i), const(0x36, 8)) for i in range(b)]; s.opad = [T.bxor(k(i), const(0x5c, 8)) for i in range(b)]
    def inner(s, *segs): return msg(seg_b(s.ipad), *segs)
    def outer(s, inner): return msg(seg_b(s.opad), seg_b([dg(s.alg, inner, j) for j in range(FIXED[s.alg])]))
    def all(s, *segs):
        i = s.inner(*segs); o = s.outer(i)
        return [s.keymsg, i, o]
def find_states(st, o, alg):
    """offsets of abstract hash contexts inside object o"""
    return [k for k, (n, v) in sorted(st.content(o).cells.items()) if isinstance(v, T.T) and v.op == "uf" and v.a[0] == "ctxb" and T.isc(v.a[2]) and T.cval(v.a[2]) == 0]

def mk_key(st):
    kl = T.var("keylen", 64); st.facts.add(ule(kl, c64(1 << 59)))
    return kl, st.new("key", kl, "param", AUF("key"), ro=True), (lambda i: T.uf("key", 8, i))
def mk_data(st, nm="data"):
    n = T.var(nm + "len", 64); st.facts.add(ule(n, c64(1 << 59)))
    return n, st.new(nm, n, "param", AUF(nm), ro=True), seg_str(nm, n)

def u_hmac_stream(alg):
    def f(ctx):
        N = "pgfe_hmac_%s_" % alg
        ex = api_executor(ctx); st = State(); z = hmac_size(alg); o = st.new("ctx", z, "param")
        kl, ko, key = mk_key(st); n, do, dseg = mk_data(st); out_ = st.new("output", FIXED[alg], "param")
        S = Spec(alg, key, kl); L = T.var("sofar", 64); st.facts.add(ule(L, c64(1 << 59))); X = ("f", T.uf("appended", 8, PROBE), L)
        ex.api.expect = S.all(X); before = snap(st)
        for s1 in ctx.run(ex, st, ctx.func(N + "set_key"), [P(o), P(ko), kl]):
            frame(ctx, before, s1, {o}, N + "set_key")
            offs = find_states(s1, o, alg); k = get_ctx(ex, s1, P(o, offs[0]), ctxsize(alg)) if len(offs) == 1 else None
            if not ctx.require(k is not None and k[:2] == ("abs", alg), N + "set_key leaves one running %s context" % alg): continue
            ok = all([ctx.oblige(s1, g, "%sset_key: the hash has been fed K xor ipad (%s)" % (N, d)) for d, g in same_msg(s1, k[2], S.inner())])
            if not ok: continue
            s1.kind = None; s1.frames = []
            # any message appended so far
            put_ctx(s1, P(o, offs[0]), ctxsize(alg), ("abs", alg, S.inner(X)))
            s2 = s1.clone(); b2 = snap(s2); want = Content(b2[o][1], dict(b2[o][2]))
            for s3 in ctx.run(ex, s2, ctx.func(N + "update"), [P(o), P(do), n]):
                k = get_ctx(ex, s3, P(o, offs[0]), ctxsize(alg))
                if not ctx.require(k is not None and k[:2] == ("abs", alg), N + "update keeps the hash context running"): continue
                for d, g in same_msg(s3, k[2], S.inner(X, dseg)): ctx.oblige(s3, g, "%supdate: the message grows by the data (%s)" % (N, d))
                for q in range(z):
                    if offs[0] <= q < offs[0] + ctxsize(alg): continue
                    a = s3.content(o).read(c64(q), 1, s3.dec, s3.bnd); b = want.read(c64(q), 1, s3.dec, s3.bnd)
                    ctx.oblige(s3, eq(a, b), N + "update changes nothing but the running hash")
                frame(ctx, b2, s3, {o}, N + "update")
            b2 = snap(s1)
            for s3 in ctx.run(ex, s1, ctx.func(N + "digest"), [P(o), P(out_)]):
                chk_digest(ctx, s3, alg, out_, S.outer(S.inner(X)), N + "digest: RFC 2104")
                frame(ctx, b2, s3, {o, out_}, N + "digest")
    return f
def u_hmac_init(alg):
    def f(ctx):
        ex = api_executor(ctx); st = State(); o = st.new("ctx", hmac_size(alg), "param"); before = snap(st)
        for out in ctx.run(ex, st, ctx.func("pgfe_hmac_%s_init" % alg), [P(o)]): frame(ctx, before, out, {o}, "pgfe_hmac_%s_init" % alg)
    return f
def u_hmac_oneshot(alg, generic=False):
    def f(ctx):
        ex = api_executor(ctx); st = State(); kl, ko, key = mk_key(st); n, do, dseg = mk_data(st); out_ = st.new("output", FIXED[alg], "param")
        S = Spec(alg, key, kl); ex.api.expect = S.all(dseg); before = snap(st)
        fn = ctx.func("pgfe_hmac" if generic else "pgfe_hmac_" + alg); what = "pgfe_hmac(%s)" % alg if generic else fn.name
        for out in ctx.run(ex, st, fn, ([const(choice(alg), 32)] if generic else []) + [P(ko), kl, P(do), n, P(out_)]):
            chk_digest(ctx, out, alg, out_, S.outer(S.inner(dseg)), what); frame(ctx, before, out, {out_}, what)
    return f
def units(which, prog):
    us = []
    if "hmac" in which:
        for a in FIXED:
            us.append(Unit("pgfe_hmac_%s set_key, update, digest" % a, u_hmac_stream(a)))
            us.append(Unit("pgfe_hmac_%s_init" % a, u_hmac_init(a)))
            us.append(Unit("pgfe_hmac_%s" % a, u_hmac_oneshot(a)))
            us.append(Unit("pgfe_hmac(%s)" % a, u_hmac_oneshot(a, True)))
    return us

# ------------------------------------------------------------------ one-time codes
HOTPALGS = [a for a in FIXED if FIXED[a] >= 20]
def be8(c): return [T.ext(8 * (7 - i) + 7, 8 * (7 - i), c) for i in range(8)]
def chk_code(ctx, out, alg, m, digits, what):
    """the result is the RFC 4226 code of the HMAC value (the digest of m); digits: a term or a number"""
    n = FIXED[alg]; R = out.result; last = dg(alg, m, n - 1)
    ds = [digits] if isinstance(digits, int) else list(range(10)) + [None]
    for k in range(16):
        v = T.concat(T.ext(6, 0, dg(alg, m, k)), dg(alg, m, k + 1), dg(alg, m, k + 2), dg(alg, m, k + 3)) if k + 4 <= n else None
        v = T.zext(v, 32)
        for d in ds:
            s2 = out.clone(); hi = T.ext(7, 4, last)
            s2.facts.add(eq(last, T.concat(hi, const(k, 4)))); s2.facts.add(eq(T.ext(3, 0, last), const(k, 4)))
            if not isinstance(digits, int):
                s2.facts.add(eq(digits, const(d, 8)) if d is not None else not_(ult(digits, const(10, 8))))
                if s2.dec(ult(digits, const(10, 8)) if d is None else not_(eq(digits, const(d, 8)))) is True: continue
            w = v if d is None or d >= 10 else T.urem(v, const(10 ** d, 32))
            r = s2.facts.simp(T.subst(R, {last: T.concat(hi, const(k, 4))}))
            ctx.oblige(s2, eq(r, T.subst(w, {last: T.concat(hi, const(k, 4))})), "%s: code at offset %d, %s digits" % (what, k, "10 or more" if d is None else d))
def u_hotp(name, alg, digits=None):
    """digits None: a parameter"""
    def f(ctx):
        ex = api_executor(ctx); st = State(); kl, ko, key = mk_key(st); c = T.var("counter", 64); S = Spec(alg, key, kl)
        inner = S.inner(seg_b(be8(c))); m = S.outer(inner); ex.api.expect = S.all(seg_b(be8(c))); before = snap(st); fn = ctx.func(name)
        d = T.var("digits", 8) if digits is None else digits
        args = ([const(choice(alg), 32)] if name == "pgfe_hotp_generic" else []) + [P(ko), kl, c] + ([d] if digits is None else [])
        for out in ctx.run(ex, st, fn, args):
            chk_code(ctx, out, alg, m, d, "%s(%s)" % (name, alg)); frame(ctx, before, out, set(), name)
    return f
class Clock:
    """assumed contract of time(): the first call of a run returns the current time; any later call some time not before it"""
    def __init__(k, st, init):
        k.off = T.zext(T.var("passed", 62), 64); k.now = T.add(init, k.off)     # now = initial + passed
        k.cell = st.new("clock calls", 8, "ghost"); st.wcontent(k.cell).write(c64(0), 8, c64(0), st.bnd)
    def time(k, ex, st, a):
        p = ex.norm_ptr(st, a[0])
        n = st.content(k.cell).read(c64(0), 8, st.dec, st.bnd); first = T.isc(n) and T.cval(n) == 0
        st.wcontent(k.cell).write(c64(0), 8, c64(1), st.bnd)
        v = k.now if first else T.add(k.now, T.zext(T.fresh("later", 32), 64))
        if p.obj is not None or not T.isc(p.off): ex.store(st, p, 8, v)
        return v
def u_totp(name, alg, digits=None):
    def f(ctx):
        for want in (False, True):
            st = State(); gen = name == "pgfe_totp_generic"; init = T.sext(T.var("initial", 62), 64) if gen else c64(0); clk = Clock(st, init)
            ex = api_executor(ctx, more={"time": clk.time}); kl, ko, key = mk_key(st); S = Spec(alg, key, kl)
            iv = T.var("interval", 32); st.facts.add(ne(iv, const(0, 32)))
            off = clk.off; ivl = T.zext(iv, 64)
            d = T.var("digits", 8) if digits is None else digits
            do = st.new("delta_out", 4, "param")
            if want: st.facts.add(ule(iv, const((1 << 31) - 1, 32)))
            c = T.udiv(off, ivl)
            m = S.outer(S.inner(seg_b(be8(c)))); ex.api.expect = S.all(seg_b(be8(c))); before = snap(st); fn = ctx.func(name)
            args = ([const(choice(alg), 32)] if gen else []) + [P(ko), kl] + ([d] if digits is None else []) + [iv] + ([init] if gen else []) + [P(do) if want else NULL]
            for out in ctx.run(ex, st, fn, args):
                w = "%s(%s)" % (name, alg)
                chk_code(ctx, out, alg, m, d, w); frame(ctx, before, out, {do, clk.cell} if want else {clk.cell}, name)
                if want:
                    v = out.content(do).read(c64(0), 4, out.dec, out.bnd)
                    ctx.oblige(out, eq(v, T.trunc(T.sub(ivl, T.urem(off, ivl)), 32)), w + ": reported remaining time")
    return f
def u_delta_lemma(ctx):
    """with off = q*iv + r, 0 <= r < iv: the reported d = iv - r satisfies 1 <= d <= iv, off + d starts step q+1, off + e is in step q for 0 <= e < d (qi stands for q*iv)"""
    import z3
    qi, r, iv, e, off = z3.Ints("qi r iv e off"); d = iv - r; h = z3.And(off == qi + r, 0 <= r, r < iv)
    s = z3.Solver(); s.add(h, z3.Not(z3.And(1 <= d, d <= iv, off + d == qi + iv, z3.Implies(z3.And(0 <= e, e < d), z3.And(qi <= off + e, off + e < qi + iv)))))
    ctx.require(s.check() == z3.unsat, "iv - off mod iv is between 1 and iv and is the time until the step number next changes", "lemma", "z3")
def totp_units():
    us = [Unit("pgfe_totp_generic(%s)" % a, u_totp("pgfe_totp_generic", a)) for a in HOTPALGS]
    us.append(Unit("pgfe_totp", u_totp("pgfe_totp", "sha1")))
    return us + [Unit("pgfe_totp_%ddigits" % d, u_totp("pgfe_totp_%ddigits" % d, "sha1", d)) for d in (4, 6, 8)] + [Unit("remaining time", u_delta_lemma)]
def otp_units():
    us = [Unit("pgfe_hotp_generic(%s)" % a, u_hotp("pgfe_hotp_generic", a)) for a in HOTPALGS]
    us.append(Unit("pgfe_hotp", u_hotp("pgfe_hotp", "sha1")))
    return us + [Unit("pgfe_hotp_%ddigits" % d, u_hotp("pgfe_hotp_%ddigits" % d, "sha1", d)) for d in (4, 6, 8)]
_u = units
def units(which, prog):
    return _u(which, prog) + (otp_units() if "hotp" in which else []) + (totp_units() if "totp" in which else [])
