"""Loop contracts.  A LoopSpec gives the canonical memory state as a function of progress; scalar
induction facts are inferred (Houdini) and then proved, one arbitrary iteration at a time."""
from . import terms as T, smt, ir
from .terms import const, eq, ne, not_, and_, or_, ult, ule, slt, sle, mask, TRUE, FALSE
from .mem import *
from .exec import *
import os, time, sys
LOG = os.environ.get("PGV_LOOP")
def log(*a):
    if LOG: print("  [loop]", *a, file=sys.stderr, flush=True)

class LoopSpec:
    """default: no canonical memory, progress is a plain iteration count"""
    coefs = (1, -1, 2, -2, 4, -4, 8, -8, 3, -3, 5, -5)
    def start(self, ex, st):
        """return list of Family alternatives for a loop entered in state st"""
        return [Family()]
class Family:
    """one choice of canonical variables.  fresh(): create them; n: progress term (64 bit)"""
    align = 0                    # try: integer loop variables starting at a multiple of 2^align stay multiples
    managed = ()                 # objects whose content apply()/goals() describe
    def fresh(self, ex, st):
        self.n = T.fresh("n", 64)
        return []                # facts
    def apply(self, ex, st): pass
    def goals(self, ex, st, n): return []     # [(desc, term)] state is canonical at progress n
    def names(self, n): return []             # [(label, fn: n -> term64)] extra induction candidates
    def values(self, slot): return []         # [(label, fn: n -> term)] candidate values of this slot, not relative to its start
    def first(self, slot): return None        # label of the name to try first
    def nmax(self): return None
    def plausible(self, ex, G0, backs): return True   # cheap test on one symbolic iteration from an arbitrary head state
    def unmanaged(self, o): return ()   # cell offsets of a managed object left to slot inference

def sym_loop(ex, S0, L):
    k = ex.loopspec.peel(ex, S0) if hasattr(ex.loopspec, "peel") else 0
    return peeled(ex, S0, L, k) if k else sym_loop1(ex, S0, L)
def peeled(ex, S0, L, k):
    """the first k iterations one by one, then the rest as a loop"""
    fr0 = S0.frames[-1]; depth = len(S0.frames); S0 = S0.clone(); out = []; todo = [S0]; u0 = [f.unroll for f in S0.frames]
    def stop(x, pred):
        if len(x.frames) != depth or x.frames[-1].fid != fr0.fid: return None
        if x.frames[-1].block == L.header and pred in L.body: return "back"
        return None if x.frames[-1].block in L.body else "exit"
    savem = ex.merging; ex.merging = 0
    try:
        for _ in range(k):
            nxt = []
            for s in todo:
                for f in s.frames: f.unroll = {}
                for o in ex.run(s, stop, depth - 1):
                    if o.facts.false: continue
                    (nxt if o.kind == "back" else out).append(o)
                    if o.frames:
                        for f, u in zip(o.frames, u0): f.unroll = u
            for o in nxt: o.kind = None
            todo = nxt
    finally: ex.merging = savem
    for s in todo:
        s.ghost["peeled"] = const(k, 64); out += sym_loop1(ex, s, L)
    return out
def sym_loop1(ex, S0, L):
    fr0 = S0.frames[-1]; depth = len(S0.frames); fid = fr0.fid; h = L.header; body = L.body
    fn = fr0.fn
    unroll0 = [f.unroll for f in S0.frames]
    where = "%s:%s" % (fn.name, h)

    def strip(s):
        for f in s.frames: f.unroll = {}
        return s
    def restore(s):
        for f, u in zip(s.frames, unroll0): f.unroll = u
        return s
    def lstop(x, pred):
        if len(x.frames) < depth: return None
        f = x.frames[depth - 1]
        if f.fid != fid or len(x.frames) != depth: return None
        if f.block == h and pred in body: return "back"
        if f.block not in body: return "exit"
        return None
    last = [False, 0]           # take iterations that are bound to be the last as exits; how many were
    def run(G):
        outs = ex.run(G, lstop, depth - 1)
        backs = [o for o in outs if o.kind == "back" and not o.facts.false]
        exits = [o for o in outs if o.kind == "exit" and not o.facts.false]
        other = [o for o in outs if o.kind not in ("back", "exit")]
        if last[0]:
            keep = []
            for b in backs:
                c = b.clone(); c.kind = None
                q = ex.quiet; ex.quiet += 1; nob = len(ex.obls)
                try: r = ex.run(c, hstop, depth - 1)
                finally:
                    ex.quiet = q; del ex.obls[nob:]
                r = [x for x in r if not x.facts.false]
                if r and all(x.kind == "exit" for x in r): last[1] += 1; exits = exits + r
                else: keep.append(b)
            backs = keep
        return backs, exits, other
    def hstop(x, pred):
        if len(x.frames) != depth or x.frames[depth - 1].fid != fid: return None
        return "exit" if x.frames[depth - 1].block not in body else "in"

    phis = fn.blocks[h].phis
    spec = ex.loopspec or LoopSpec()
    fams = spec.start(ex, S0)
    best = None
    savem = ex.merging; ex.merging = 0
    try:
        if ex.phase_a:
            for fam in fams:
                r = try_family(ex, S0, L, fam, spec, phis, strip, run, where, None, only_a=True)
                if r[0] != 3000: break
            return [restore(e) for e in r[2]] + [restore(o) if o.frames else o for o in r[3]]
        for last[0] in (False, True):
            if last[0] and not probe(ex, S0, fams[-1], phis, strip, run, last): break
            for fam in fams if not last[0] else spec.start(ex, S0):
                t0 = time.time()
                r = try_family(ex, S0, L, fam, spec, phis, strip, run, where, best)
                log(where, getattr(fam, "mode", ""), getattr(fam, "skip", ""), "fails", r[0], r[4], "%.1fs" % (time.time() - t0), [(o[3], o[2], show(o[5])) for o in r[1] if not o[1]][:3])
                if r[0] == 0:
                    best = r; break
                if best is None or r[0] < best[0]: best = r
            if best[0] == 0: break
    finally: ex.merging = savem
    if best[0]: raise LoopFail(where, [o for o in best[1] if not o[1]] or [("loop", False, "unknown", where + ": " + best[4], None, None)])
    nfail, obls, exits, other, msg = best
    ex.obls += obls
    ex.loops_done.append(where + " " + msg)
    return [restore(e) for e in exits] + [restore(o) if o.frames else o for o in other]

def probe(ex, S0, fam, phis, strip, run, last):
    """does some iteration end with a state that leaves the loop for certain (and not every one)?"""
    ex.quiet += 1; ex.phase_a += 1; nob = len(ex.obls)
    try:
        G = strip(S0.clone())
        for f in fam.fresh(ex, S0): add_fv(G, f)
        fam.apply(ex, G)
        for ph in phis:
            v = S0.frames[-1].env[ph.res]
            if isinstance(v, T.T): G.frames[-1].env[ph.res] = T.fresh("pr", v.w)
            elif isinstance(v, Ptr) and v.obj is not None and not isinstance(v.obj, tuple): G.frames[-1].env[ph.res] = Ptr(v.obj, T.fresh("pr", 64))
        last[1] = 0; backs, _, _ = run(G)
        return last[1] > 0 and bool(backs)
    except Exception: return False
    finally:
        ex.quiet -= 1; ex.phase_a -= 1; del ex.obls[nob:]

def show(x):
    try: return T.show(x[0], 8)[:700] if x else None
    except Exception: return "?"

def add_fv(G, f):
    if isinstance(f, tuple): G.facts.add_rule(f[1])
    else: G.facts.add(f)
class Slot:
    """a phi or a scalar memory cell changed by the loop"""
    def __init__(self, kind, key, v0, ty=None):
        self.kind = kind; self.key = key; self.v0 = v0; self.cand = None; self.hint = False; self.var = None; self.val = None; self.al = None
    def get(self, st):
        if self.kind == "phi": return st.frames[-1].env[self.key]
        o, k, n = self.key
        v = st.content(o).cells.get(k)
        if v is None or v[0] != n: return None
        return v[1]
    def put(self, st, v):
        if self.kind == "phi": st.frames[-1].env[self.key] = v
        else:
            o, k, n = self.key
            c = st.wcontent(o); c._clear(k, n); c.cells[k] = (n, v)
    def num(self, v):
        """numeric part (term) or None"""
        if isinstance(v, T.T): return v
        if isinstance(v, Ptr) and isinstance(self.v0, Ptr) and v.obj is self.v0.obj: return v.off
        return None
    def mk(self, t):
        return t if isinstance(self.v0, T.T) else Ptr(self.v0.obj, t)
    @property
    def w(self): return self.v0.w if isinstance(self.v0, T.T) else 64
    def n0(self): return self.v0 if isinstance(self.v0, T.T) else self.v0.off

def fit(t, w):
    if t.w == w: return t
    return T.trunc(t, w) if t.w > w else T.zext(t, w)

def scaled(dn, k, w):
    return T.linear(0, [(k, fit(dn, w))], w)

def ratio(d, dn, w):
    """k with d == k*dn (w bits) syntactically, or None"""
    dnw = fit(dn, w)
    if T.isc(d) and T.isc(dnw):
        a, b = T.sgn(T.cval(d), w), T.sgn(T.cval(dnw), w)
        if a == 0: return 0
        if b and a % b == 0: return a // b
        return None
    if T.isc(d): return 0 if T.cval(d) == 0 else None
    for k in (1, -1, 2, -2, 4, -4, 8, -8, 3, -3, 5, -5, 16, -16):
        if scaled(dn, k, w) is d: return k
    # single-term coefficient ratio
    a = d if d.op == "add" else None; b = dnw if dnw.op == "add" else None
    if a is not None and b is not None and len(a.a[1]) == len(b.a[1]):
        k1, k2 = T.sgn(a.a[1][0][0], w), T.sgn(b.a[1][0][0], w)
        if k2 and k1 % k2 == 0 and scaled(dn, k1 // k2, w) is d: return k1 // k2
    return None

def divide(d, c):
    """d / c for a 64-bit (or other) term known to be an exact multiple, else None"""
    w = d.w
    if c == 1: return d
    if c == -1: return T.neg(d)
    if T.isc(d):
        v = T.sgn(T.cval(d), w)
        return const(v // c, w) if v % c == 0 else None
    if d.op == "add" or d.op == "concat":
        if d.op == "concat":
            tmp = {}
            cc = T._addin(tmp, 1, d, w); items = [(k, t) for t, k in tmp.items()]; c0 = cc & mask(w)
            if len(items) == 1 and items[0][1] is d:
                a = abs(c)
                if a & (a - 1) or a.bit_length() - 1 > T.tz(d): return None
                d = T.lshrc(d, a.bit_length() - 1)
                return d if c > 0 else T.neg(d)
        else: c0, items = d.a
        out = []
        for k, t in items:
            k = T.sgn(k, w)
            if k % c:
                z = T.tz(t); a = abs(c)
                if a & (a - 1) or a.bit_length() - 1 > z: return None
                t = T.lshrc(t, a.bit_length() - 1); k = k if c > 0 else -k
                out.append((k, t)); continue
            out.append((k // c, t))
        c0 = T.sgn(c0, w)
        if c0 % c: return None
        return T.linear(c0 // c, out, w)
    return None

def diff_cells(ex, A, B, managed):
    """objects/cells of B that differ from A (same objects). returns {obj: (cells set|None)}; None = base changed"""
    r = {}
    for o, ca in A.mem.items():
        cb = B.mem.get(o)
        if cb is None or cb is ca: continue
        ch = set()
        un = managed.get(o)
        if un is not None and not un: continue
        for k in (un if un is not None else set(ca.cells) | set(cb.cells)):
            x, y = ca.cells.get(k), cb.cells.get(k)
            if x is None or y is None or x[0] != y[0] or not same_val(x[1], y[1]): ch.add(k)
        bch = un is None and ca.base is not cb.base
        if ch or bch: r[o] = (ch, bch)
    return r
def same_val(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj is b.obj and a.off is b.off
    return False

def try_family(ex, S0, L, fam, spec, phis, strip, run, where, best, only_a=False):
    # ------------------------------------------------------------ phase A: what changes, how fast
    slots = []
    for ph in phis:
        v0 = S0.frames[-1].env[ph.res]
        slots.append(Slot("phi", ph.res, v0))
    havoc = {}                      # obj -> set of cells dropped / True for everything
    factsV = fam.fresh(ex, S0)
    managed = {o: fam.unmanaged(o) for o in fam.managed}
    fam.initially = []
    if not ex.quiet:
        for desc, g in fam.goals(ex, S0, const(0, fam.n.w)):
            ok, bk, info = smt.prove(S0.facts, g)
            o = ("invariant", ok, bk, where + ": initially " + desc, info, None if ok else (g, list(S0.facts.list)))
            if not ok: return (1, [o], [], [], "obligation fails")
            fam.initially.append(o)
    ex.quiet += 1; ex.phase_a += 1
    nob = len(ex.obls)
    try:
        for rnd in range(6):
            G = strip(S0.clone())
            for f in factsV: add_fv(G, f)
            fam.apply(ex, G)
            for o, cs in havoc.items(): do_havoc(G, o, cs)
            for s in slots:
                if isinstance(s.v0, (T.T,)):
                    s.var = s.val = T.fresh("ph", s.w)
                    if s.al is None: s.al = fam.align if s.kind == "phi" and fam.align and s.w > fam.align and (T.cval(s.v0) % (1 << fam.align) == 0 if T.isc(s.v0) else T.tz(s.v0) >= fam.align) else 0
                    if s.al: s.val = T.concat(T.ext(s.w - 1, s.al, s.var), const(0, s.al))
                    s.put(G, s.val)
                elif isinstance(s.v0, Ptr) and s.v0.obj is not None and not isinstance(s.v0.obj, tuple):
                    s.var = s.val = T.fresh("ph", 64); s.put(G, Ptr(s.v0.obj, s.var))
                else: s.var = s.val = None
            G0 = G.clone()
            backs, exits, other = run(G)
            new = False
            for s in slots:
                if s.al and s.var is not None and not all(isinstance(s.get(b), T.T) and smt.prove(b.facts, eq(T.trunc(s.get(b), s.al), const(0, s.al)), timeout=3)[0] for b in backs): s.al = 0; new = True
            for b in backs + exits:
                for o, (ch, basech) in diff_cells(ex, G0, b, managed).items():
                    known = havoc.setdefault(o, {"base": False, "cells": set()})
                    if basech and not known["base"]: known["base"] = True; new = True
                    for k in ch:
                        x = S0.content(o).cells.get(k)
                        if any(s.kind == "cell" and s.key[0] is o and s.key[1] == k for s in slots): continue
                        y = b.content(o).cells.get(k)
                        if x is not None and y is not None and x[0] == y[0] and isinstance(x[1], (T.T, Ptr)) and x[0] in (1, 2, 4, 8) and k not in known["cells"]:
                            slots.append(Slot("cell", (o, k, x[0]), x[1])); new = True
                        elif k not in known["cells"]: known["cells"].add(k); new = True
            if not new: break
    finally:
        ex.quiet -= 1; ex.phase_a -= 1
        del ex.obls[nob:]
    if not fam.plausible(ex, G0, backs): return (3000, [("loop", False, "unknown", where + ": no invariant family fits", None, None)], exits, other, "implausible")
    if only_a: return (0, [], exits, other, "")
    # which exit conditions (over slot variables) are available
    conds = exit_conds(ex, S0, L, backs + exits, slots)
    # ------------------------------------------------------------ choose primaries
    prim = []
    seen = set()
    for s in slots:
        if s.var is None or not backs: continue
        ds = []
        for b in backs:
            v = s.num(s.get(b)) if s.get(b) is not None else None
            if v is None: ds = None; break
            ds.append(b.facts.simp(T.sub(v, s.val)))
        if not ds: continue
        if all(T.isc(d) and T.cval(d) == 0 for d in ds): continue
        pr = 0 if all(T.isc(d) for d in ds) else 1
        for c in fam.coefs if hasattr(fam, "coefs") else spec.coefs:
            dn = [divide(d, c) for d in ds]
            if any(x is None for x in dn): continue
            if any(T.isc(x) and (T.cval(x) == 0 or T.cval(x) >> (x.w - 1)) for x in dn): continue
            key = tuple(fit(x, 64) for x in dn)
            if key in seen: continue
            seen.add(key)
            prim.append((pr, s, c, [fit(x, 64) if s.w <= 64 else T.trunc(x, 64) for x in dn]))
    if not prim:
        o = ("loop", False, "unknown", where + ": no progress measure found", None, None)
        res = (1000, [o] if not ex.quiet else [], exits, other, "no measure")
        return finish_unproved(ex, S0, strip, res, factsV, fam, havoc, slots, run)
    result = None
    co = list(fam.coefs) if hasattr(fam, "coefs") else None
    prim.sort(key=lambda p: (p[0], 0 if p[0] or all(T.cval(x) == 1 for x in p[3]) else 1, 0 if isinstance(p[1].v0, Ptr) else 1, co.index(p[2]) if co else abs(p[2]), p[2] < 0))
    if hasattr(fam, "prefer"): prim = fam.prefer(prim)
    if LOG:
        for s in slots:
            if s.var is not None: log("   slot", s.key, "al", s.al, [show([b.facts.simp(T.sub(s.num(s.get(b)), s.val))])[:300] for b in backs if s.get(b) is not None and s.num(s.get(b)) is not None])
        log("   prims", [(p[1].key, p[2]) for p in prim])
    for _, p, c, dns in prim[:8]:
        r = try_primary(ex, S0, L, fam, spec, slots, havoc, p, c, dns, backs, conds, strip, run, where, factsV)
        if result is None or r[0] < result[0]: result = r
        if result[0] == 0: break
    return result

def do_havoc(G, o, cs):
    if o not in G.mem: return
    c = G.wcontent(o)
    if cs["base"]:
        c.base = AHavoc("lh")
    for k in cs["cells"]:
        x = c.cells.get(k)
        if x is not None:
            del c.cells[k]
            if isinstance(x[1], T.T): c.cells[k] = (x[0], T.fresh("lhc", 8 * x[0]))
        elif not cs["base"]:
            c.cells[k] = (1, T.fresh("lhc", 8))

def exit_conds(ex, S0, L, states, slots):
    """comparison terms over the loop variables seen on exit edges"""
    vs = {s.var for s in slots if s.var is not None}
    out = []
    seen = set()
    def visit(t):
        if t in seen: return
        seen.add(t)
        if t.op == "not": visit(t.a[0]); return
        if t.op == "and" and t.w == 1:
            for x in t.a: visit(x)
            return
        if t.op in ("ult", "slt", "eq") and t in ex.branched:
            if any(x in vs for x in T.postorder([t])): out.append(t)
    base = S0.facts.set
    for s in states:
        for f in s.facts.list:
            if f not in base: visit(f)
    return out[:12]

def try_primary(ex, S0, L, fam, spec, slots, havoc, p, c, dns, backs, conds, strip, run, where, factsV):
    n = fam.n
    # candidate value of every slot as a term in n
    cands = {}; nonheader = any(set(ir.succs(S0.frames[-1].fn.blocks[bn])) - set(L.body) for bn in L.body if bn != L.header) if fam.names(n) else False
    for s in slots:
        if s.var is None: cands[s] = ("same",); continue
        if s is p: cands[s] = ("lin", c); continue
        k = None; ok = True; anyv = False
        for b, dn in zip(backs, dns):
            v = s.get(b); v = s.num(v) if v is not None else None
            if v is None: ok = False; break
            d = b.facts.simp(T.sub(v, s.val))
            q = ratio(d, b.facts.simp(dn), s.w)
            if q is None: ok = False; break
            if k is not None and q != k: ok = False; break
            k = q
        if ok and k is not None: cands[s] = ("lin", k)
        else:
            nm = [("value", lab, f) for lab, f in fam.values(s)] + [("name", lab, f, cf) for lab, f in fam.names(n) for cf in (1, -1)]
            s.inside = s.kind != "phi" or used_inside(L, S0.frames[-1].fn, s.key)
            if not s.inside and not (fam.names(n) and nonheader): cands[s] = ("havoc",)
            else:
                cands[s] = ("lin", 0)
                s.alts = nm + [("havoc",)]
                lab = fam.first(s)
                if lab == "havoc": cands[s] = ("havoc",); s.alts = []
                elif lab:
                    s.hint = True; x = [y for y in nm if y[1] == lab][0]; s.alts = [y for y in nm if y is not x] + [("lin", 0), ("havoc",)]; cands[s] = x
    bnds = None
    for rnd in range(14):
        res = attempt(ex, S0, L, fam, slots, cands, havoc, p, c, conds, bnds, strip, run, where, factsV)
        log("   attempt", rnd, p.key, c, [(s.key if s.kind == "phi" else "cell%s" % s.key[1], cands[s][:2]) for s in slots], "->", res[0] if res[0] != "retry" else ("retry", [s.key for s in res[1]]), "bounds", len(bnds or []), [(o[3], o[2], show(o[5])) for o in res[1] if not o[1]][:3] if res[0] != "retry" else "")
        if res[0] == "retry":
            _, bad, bnds = res[:3]
            if not all(s.hint for s in bad): bad = [s for s in bad if not s.hint]     # first give up what was not hinted at
            for s in bad:
                s.hint = False
                al = getattr(s, "alts", None)
                if al: cands[s] = al.pop(0)
                elif cands[s][0] != "havoc" and s is not p: cands[s] = ("havoc",)
                else: return (500, [("loop", False, "unknown", where + ": primary not inductive", None, None)], res[3] if len(res) > 3 else [], [], "bad primary")
            continue
        return res
    return (900, [("loop", False, "unknown", where + ": no inductive invariant", None, None)], [], [], "gave up")

def cand_value(s, cand, n, n_zero, fam):
    if cand[0] == "lin":
        return T.add(s.n0(), scaled(n, cand[1], s.w)) if cand[1] else s.n0()
    if cand[0] == "name":
        f = cand[2]
        return T.linear(0, [(1, s.n0()), (cand[3], fit(f(n), s.w)), (-cand[3], fit(f(n_zero), s.w))], s.w)
    if cand[0] == "value": return fit(cand[2](n), s.w)
    return None

def attempt(ex, S0, L, fam, slots, cands, havoc, p, c, conds, bnds, strip, run, where, factsV):
    n = fam.n; z = const(0, n.w)
    G = strip(S0.clone())
    nob = len(ex.obls)
    for f in factsV: add_fv(G, f)
    fam.apply(ex, G)
    for o, cs in havoc.items(): do_havoc(G, o, cs)
    sub = {}
    for s in slots:
        cd = cands[s]
        if cd[0] == "same": continue
        if cd[0] == "havoc":
            v = T.fresh("hv", s.w); s.put(G, s.mk(v)); sub[s.var] = v
        else:
            v = cand_value(s, cd, n, z, fam); s.put(G, s.mk(v)); sub[s.var] = v
    # bound candidates
    if bnds is None:
        bnds = []
        for t in conds:
            for x in cond_bounds(t):
                g = T.subst(x, {})
                bnds.append(x)
    live = []
    zsub = {s.var: s.n0() for s in slots if s.var is not None}
    for x in bnds:
        g0 = T.subst(x, zsub)
        if any(v.op == "var" and v.a[0].startswith("hv!") for v in T.postorder([T.subst(x, sub)])):
            continue
        if smt.prove(S0.facts, g0, timeout=3)[0]: live.append(x)
    bnds = live
    nm = fam.nmax()
    for x in bnds: G.facts.add(T.subst(x, sub))
    if nm is not None: G.facts.add(ule(n, nm))
    Ghead = G.clone()
    sd = ex.defer; ex.defer = []
    try: backs, exits, other = run(G)
    except LoopFail as e:
        del ex.obls[nob:]
        return (1, e.obls, [], [], "inner loop")
    finally: dfr = ex.defer; ex.defer = sd
    bobl = ex.obls[nob:]; del ex.obls[nob:]
    obls = []
    bad = set(); badb = set()
    def chk(st, goal, desc, kind="invariant"):
        ok, bk, info = smt.prove(st.facts, goal)
        return (kind, ok, bk, desc, info, None if ok else (goal, list(st.facts.list)))
    for b in backs:
        pv = p.get(b); pv = p.num(pv) if pv is not None else None
        if pv is None: return (600, [("loop", False, "unknown", where + ": primary lost", None, None)], exits, other, "primary lost")
        cur = sub[p.var]
        dn = divide(b.facts.simp(T.sub(pv, cur)), c)
        if dn is None: dn = divide(T.sub(pv, cur), c)
        if dn is None: return (600, [("loop", False, "unknown", where + ": progress not a multiple", None, None)], exits, other, "primary not divisible")
        dn = fit(dn, n.w) if dn.w <= n.w else T.trunc(dn, n.w)
        n1 = T.add(n, dn)
        for s in slots:
            cd = cands[s]
            if cd[0] == "havoc" or s is p: continue
            v = s.get(b)
            if cd[0] == "same":
                if not same_val(v, s.v0): bad.add(s)
                continue
            v = s.num(v) if v is not None else None
            if v is None: bad.add(s); continue
            g = eq(v, cand_value(s, cd, n1, z, fam))
            o = chk(b, g, where + ": induction of %s" % (s.key,))
            if not o[1]:
                bad.add(s)
                if LOG and LOG == s.key: log('     not inductive', s.key, cd[:2], o[2], show(o[5]), str(o[4])[:200]); log('       facts', [T.show(x,6)[:200] for x in b.facts.list][-40:])
            else: obls.append(o)
        if bad: return ("retry", bad, bnds, exits)
        s1 = {}
        for s in slots:
            if s.var is None: continue
            cd = cands[s]
            v = s.get(b); v = s.num(v) if v is not None else None
            s1[s.var] = v if v is not None else T.fresh("hv", s.w)
        for x in bnds:
            y = T.subst(x, s1)
            if b.facts.cheap(y) is not True and smt.decide(b.facts, b.facts.simp(y)) is not True: badb.add(x)
        if badb: return ("retry", set(), [x for x in bnds if x not in badb], exits)
    def failed(o):
        log("     failing:", o[3], o[2], show(o[5]), str(o[4])[:200])
        return (1, [o], [], [], "obligation fails")
    obls += fam.initially
    if not ex.quiet:
        for kind, goal, desc, facts in dfr:
            ok, bk, info = smt.prove(facts, goal)
            o = (kind, ok, bk, desc, info, None if ok else (goal, list(facts.list)))
            if not ok: return failed(o)
            obls.append(o)
    for b in backs:
        pv = p.num(p.get(b)); cur = sub[p.var]
        dn = divide(b.facts.simp(T.sub(pv, cur)), c)
        if dn is None: dn = divide(T.sub(pv, cur), c)
        dn = fit(dn, n.w) if dn.w <= n.w else T.trunc(dn, n.w)
        n1 = T.add(n, dn)
        o = chk(b, ult(n, n1), where + ": progress increases (termination)", "termination")
        if not o[1]: return failed(o)
        obls.append(o)
        if nm is not None:
            o = chk(b, ule(n1, nm), where + ": progress stays within the bound")
            if not o[1]: return failed(o)
            obls.append(o)
        for desc, g in fam.goals(ex, b, n1):
            o = chk(b, g, where + ": preserved " + desc)
            if not o[1]: return failed(o)
            obls.append(o)
    obls += bobl
    nf = sum(1 for o in obls if not o[1])
    if nf: return failed([o for o in obls if not o[1]][0])
    # exits: when some loop variable has no closed form, leave through the header with its actual last value
    ex_out = exits
    if any(cands[s][0] == "havoc" for s in slots if s.kind == "phi") and used_outside(L, S0.frames[-1].fn, [s.key for s in slots if s.kind == "phi" and cands[s][0] == "havoc"]):
        hx = [e for e in exits if e.frames[-1].prev == L.header]
        if hx:
            rest = [e for e in exits if e.frames[-1].prev != L.header]
            rep = []
            for b in [strip(S0.clone())] + backs:
                b = b.clone(); b.kind = None
                q = ex.quiet; ex.quiet += 1
                try: _, e2, _ = run_header(ex, b, L)
                finally: ex.quiet = q
                rep += e2
            ex_out = rest + rep
    if ex.quiet: obls = []
    return (nf, obls, ex_out, other, "n via %s*%d; %s" % (p.key if p.kind == "phi" else "cell", c, ",".join("%s:%s" % (s.key if s.kind == "phi" else "cell", cands[s][0] + (str(cands[s][1]) if len(cands[s]) > 1 else "")) for s in slots)))

def run_header(ex, b, L):
    depth = len(b.frames); fid = b.frames[-1].fid
    def hstop(x, pred):
        if len(x.frames) < depth: return None
        f = x.frames[depth - 1]
        if f.fid != fid or len(x.frames) != depth: return None
        if f.block not in L.body: return "exit"
        return "in"
    outs = ex.run(b, hstop, depth - 1)
    return [], [o for o in outs if o.kind == "exit" and not o.facts.false], []

def used_inside(L, fn, name):
    ns = {name}
    for bn in L.body:
        b = fn.blocks[bn]
        for I in b.phis:
            if bn == L.header:
                for v, pb in I.x:
                    if v[0] == "r" and v[1] == name and pb in L.body and I.res != name: return True
            elif any(v[0] == "r" and v[1] == name for v, _ in I.x): return True
        for I in b.ins + [b.term]:
            if _uses(I, ns): return True
    return False
def used_outside(L, fn, names):
    ns = set(names)
    for bn in fn.order:
        if bn in L.body: continue
        b = fn.blocks[bn]
        for I in b.phis:
            for v, _ in I.x:
                if v[0] == "r" and v[1] in ns: return True
        for I in b.ins + [b.term]:
            if _uses(I, ns): return True
    return False
def _uses(I, ns):
    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "r" and x[1] in ns: return True
            return any(w(y) for y in x)
        if isinstance(x, list): return any(w(y) for y in x)
        return False
    return w(I.a) or w(I.x)

def cond_bounds(t):
    a, b = t.a
    if t.op == "ult": return [ule(a, b), ule(b, a)]
    if t.op == "slt": return [sle(a, b), sle(b, a)]
    if t.op == "eq": return [ule(a, b), ule(b, a)] if a.w > 1 else []
    return []

def finish_unproved(ex, S0, strip, res, factsV, fam, havoc, slots, run):
    return res
