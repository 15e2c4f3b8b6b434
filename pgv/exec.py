"""Symbolic execution of LLVM IR under contracts: generates and discharges the obligations."""
import itertools, time, math, hashlib
from fractions import Fraction
from . import terms as T, smt, ir
from .terms import const, eq, ne, ite, not_, and_, or_, ult, ule, slt, sle, mask, TRUE, FALSE
from .mem import *

class Unsupported(Exception): pass
STACKMAX = 1 << 20     # a local array larger than this is reported: the stack is finite
class Fork(Exception):
    """data: the condition depends on where an input text ends"""
    def __init__(self, cond, data=False): self.cond = cond; self.data = data
class LoopUndecided(Exception):
    def __init__(self, key): self.key = key
class Budget(Exception): pass

class Frame:
    __slots__ = ("fn", "env", "block", "idx", "prev", "ret", "varargs", "locals", "unroll", "fid")
    _n = itertools.count(1)
    def clone(self):
        f = Frame(); f.fn = self.fn; f.env = dict(self.env); f.block = self.block; f.idx = self.idx; f.prev = self.prev
        f.ret = self.ret; f.varargs = self.varargs; f.locals = self.locals; f.unroll = self.unroll; f.fid = self.fid
        return f

class State:
    _n = itertools.count(1)
    def __init__(self):
        self.frames = []; self.mem = {}; self.facts = smt.Facts(); self.ghost = {}; self.tok = next(State._n); self.result = None
        self.dead = set(); self.kind = None; self.exc = None; self.trace = ()
    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]; s.mem = dict(self.mem); s.facts = self.facts.copy(); s.ghost = dict(self.ghost)
        s.tok = next(State._n); self.tok = next(State._n)
        s.result = self.result; s.dead = set(self.dead); s.kind = None; s.exc = self.exc; s.trace = self.trace
        return s
    def content(self, o):
        c = self.mem.get(o)
        if c is None: raise Unsupported("no content for %r" % o)
        return c
    def wcontent(self, o):
        c = self.mem.get(o)
        if c is None: raise Unsupported("no content for %r" % o)
        if c.owner != self.tok:
            c = c.clone(self.tok); self.mem[o] = c
        return c
    def new(self, name, size, kind="stack", base=None, ro=False):
        o = Obj(name, size, kind, ro)
        self.mem[o] = Content(base if base is not None else AHavoc("uninit_" + name), None, self.tok)
        return o
    def dec(self, c):
        return self.facts.cheap(c)
    def bnd(self, t): 
        if T.isc(t): return T.cval(t), T.cval(t)
        lo, hi = self.facts.bnd.rng(t)
        t2 = self.facts.simp(t)
        if t2 is not t:
            l2, h2 = self.facts.bnd.rng(t2)
            lo = max(lo, l2); hi = min(hi, h2)
        return lo, hi

class LoopFail(Exception):
    def __init__(self, where, obls): self.where = where; self.obls = obls
    def __str__(self): return "no loop invariant of %s is inductive: %s" % (self.where, "; ".join(o[3] for o in self.obls[:3]))

def widen(s, t):
    """concat(0, low bits of a sum) is the sum itself when the sum is known not to exceed those bits"""
    if not isinstance(t, T.T) or t.op != "concat" or len(t.a) != 2 or not T.isc(t.a[0]) or T.cval(t.a[0]): return t
    y = t.a[1]; w = t.w
    def W(z):
        if z.op == "ext" and z.a[1] == 0: z = z.a[2]
        return z if z.w == w else T.trunc(z, w) if z.w > w else T.zext(z, w)
    if y.op == "add": r = T.linear(T.sgn(y.a[0], y.w), [(T.sgn(k, y.w), W(z)) for k, z in y.a[1]], w)
    elif y.op == "ext" and y.a[1] == 0: r = W(y)
    else: return t
    if r is t: return t
    return r if forced(s, ult(r, const(1 << y.w, w))) else t
def forced(s, c):
    v = s.facts.cheap(c)
    if v is None:
        v = smt.decide(s.facts, s.facts.simp(c))
        if v is not None: s.facts.add(c if v else not_(c))
    return v is True

class Executor:
    def __init__(self, prog, overrides=None, loopspec=None, name=""):
        self.prog = prog; self.name = name
        self.ov = overrides or {}
        self.loopspec = loopspec
        self.obls = []          # (kind, ok, backend, desc, info, facts)
        self.used_funcs = set(); self.assumed = set()
        self.gobj = {}
        self.merging = 0
        self.steps = 0; self.max_steps = 3000000
        self.quiet = 0; self.branched = set(); self.phase_a = 0; self.defer = None
        self.deadline = None
        self.fork_limit = 400
        self.loops_done = []
        self.cover = 0
        self.frees = 0

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, kind, goal, desc):
        """prove under the state's facts; record; assume afterwards"""
        if goal is TRUE and self.quiet: return True
        if self.quiet:
            st.facts.add(goal); return True
        if self.defer is not None and goal is not TRUE:
            self.defer.append((kind, goal, desc, st.facts.copy())); st.facts.add(goal); return True
        ok, bk, info = smt.prove(st.facts, goal)
        self.obls.append((kind, ok, bk, desc, info, None if ok else (goal, list(st.facts.list))))
        if goal is not TRUE: st.facts.add(goal)
        return ok
    def fail(self, st, kind, desc):
        if self.quiet: return
        if self.defer is not None: self.defer.append((kind, FALSE, desc, st.facts.copy()))
        else: self.obls.append((kind, False, "unknown", desc, None, (FALSE, list(st.facts.list))))
    def decide(self, st, c, sm=True):
        v = st.facts.cheap(c)
        if v is not None or not sm: return v
        c2 = st.facts.simp(c)
        v = smt.decide(st.facts, c2)
        if v is not None: st.facts.add(c if v else not_(c))
        return v

    # ---------------------------------------------------------------- globals
    def global_ptr(self, st, name, mod):
        n2 = mod.aliases.get(name, name) if mod else name
        f = self.prog.func(n2, mod)
        if f is not None or (mod and n2 in mod.decls and n2 not in mod.globals): return Ptr(("fn", n2, mod), c64(0))
        g = None
        if mod and n2 in mod.globals: g = mod.globals[n2]
        if g is None or g.external: g = self.prog.globals.get(n2, g)
        if g is None: 
            return Ptr(("fn", n2, mod), c64(0))
        o = self.gobj.get(id(g))
        if o is None:
            try: sz = g.mod.size(g.ty)
            except ir.IRError: sz = 8
            o = Obj("@" + n2, sz, "global", ro=g.const); o.tag = g
            self.gobj[id(g)] = o
        if o not in st.mem:
            cells = {}; base = AConst(const(0, 8))
            if g.external or g.init is None: base = AUF("ext_" + n2)
            elif not g.const: base = AUF("glob_" + n2); 
            if g.init is not None and g.const:
                data = bytearray(T.cval(o.size)); ptrs = {}
                self._init(g.mod, g.ty, g.init, 0, data, ptrs, st)
                base = ABytes(bytes(data)); cells = {k: (8, v) for k, v in ptrs.items()}
            st.mem[o] = Content(base, cells, st.tok)
        return Ptr(o, c64(0))
    def _init(self, mod, ty, v, off, data, ptrs, st):
        ty = mod.resolve(ty); k = v[0]
        if k in ("zero", "undef", "null"): return
        if k == "bytes":
            data[off:off + len(v[1])] = v[1]; return
        if k == "c":
            n = mod.size(ty); data[off:off + n] = (v[1] & mask(8 * n)).to_bytes(n, "little"); return
        if k == "f":
            import struct
            data[off:off + 8] = struct.pack("<d", v[1]); return
        if k == "agg":
            if ty[0] == "arr":
                n = mod.size(ty[2])
                for i, (t2, x) in enumerate(v[1]): self._init(mod, t2, x, off + i * n, data, ptrs, st)
            else:
                offs, _ = mod.layout(ty)
                for o, (t2, x) in zip(offs, v[1]): self._init(mod, t2, x, off + o, data, ptrs, st)
            return
        p = self.val_mod(st, mod, ("ptr",), v)
        ptrs[off] = p

    # ---------------------------------------------------------------- values
    def val(self, st, ty, v):
        k = v[0]
        if k == "r":
            try: return st.frames[-1].env[v[1]]
            except KeyError: raise Unsupported("undefined register %" + v[1])
        return self.val_mod(st, st.frames[-1].fn.mod, ty, v)
    def val_mod(self, st, mod, ty, v):
        k = v[0]
        ty = mod.resolve(ty)
        if k == "c":
            return const(v[1], ty[1])
        if k == "g": return self.global_ptr(st, v[1], mod)
        if k == "null": return NULL
        if k == "f": return Dbl(("const", v[1]))
        if k in ("undef", "zero"):
            def mk(t):
                t = mod.resolve(t)
                if t[0] == "i": return T.fresh("undef", t[1]) if k == "undef" else const(0, t[1])
                if t[0] == "ptr": return NULL if k == "zero" else Ptr(None, T.fresh("undefp", 64))
                if t[0] == "struct": return tuple(mk(x) for x in t[1])
                if t[0] == "arr": return tuple(mk(t[2]) for _ in range(t[1]))
                if t[0] in ("double", "float"): return Dbl(("const", 0.0))
                raise Unsupported("undef of %r" % (t,))
            return mk(ty)
        if k == "agg": return tuple(self.val_mod(st, mod, t, x) for t, x in v[1])
        if k == "gep":
            p = self.val_mod(st, mod, ("ptr",), v[2])
            return self.gep(st, mod, v[1], p, [(t, self.val_mod(st, mod, t, x)) for t, x in v[3]])
        if k == "inttoptr":
            return self.int2ptr(st, self.val_mod(st, mod, v[1], v[2]))
        if k == "ptrtoint": return self.ptr2int(st, self.val_mod(st, mod, v[1], v[2]))
        raise Unsupported("value %r" % (v,))
    def gep(self, st, mod, ty, p, idx):
        if isinstance(p, PIte): return PIte(p.c, self.gep(st, mod, ty, p.a, idx), self.gep(st, mod, ty, p.b, idx))
        off = []; c = 0
        first = True; t = ty
        for it, iv in idx:
            if not isinstance(iv, T.T): raise Unsupported("gep index")
            if first:
                first = False; sz = mod.size(t)
                off.append((sz, T.sext(iv, 64)))
            else:
                t = mod.resolve(t)
                if t[0] == "struct":
                    k = T.cval(iv); c += mod.layout(t)[0][k]; t = t[1][k]
                elif t[0] == "arr":
                    t = t[2]; off.append((mod.size(t), T.sext(iv, 64)))
                else: raise Unsupported("gep type %r" % (t,))
        o = T.linear(c, [(1, p.off)] + off, 64)
        return Ptr(p.obj, o)
    def ptr2int(self, st, p):
        if isinstance(p, T.T): return p
        if isinstance(p, PIte): return ite(p.c, self.ptr2int(st, p.a), self.ptr2int(st, p.b))
        if p.obj is None: return p.off
        if isinstance(p.obj, tuple): return T.var("addr_fn_" + p.obj[1], 64)
        return T.add(T.var("addr_" + p.obj.name, 64), p.off)
    def int2ptr(self, st, t):
        if t.op == "var" and t.a[0].startswith("addr_"): t2 = ((1, t),); c = 0
        elif t.op == "add": t2 = t.a[1]; c = t.a[0]
        else: return Ptr(None, t)
        hits = [(k, x) for k, x in t2 if x.op == "var" and x.a[0].startswith("addr_")]
        if len(hits) == 1 and hits[0][0] == 1:
            nm = hits[0][1].a[0][5:]
            for o in st.mem:
                if o.name == nm: return Ptr(o, T.sub(t, hits[0][1]))
        return Ptr(None, t)

    # ---------------------------------------------------------------- memory access
    def norm_ptr(self, st, p):
        while isinstance(p, PIte):
            v = self.decide(st, p.c)
            if v is None: raise Fork(p.c)
            p = p.a if v else p.b
        if not isinstance(p, Ptr): raise Unsupported("not a pointer: %r" % (p,))
        return p
    def access(self, st, p, n, what, write=False):
        """bounds obligation; n: term64. returns normalised pointer or None if access impossible"""
        p = self.norm_ptr(st, p)
        if p.obj is None or isinstance(p.obj, tuple):
            if p.obj is None and T.isc(p.off) and T.cval(p.off) == 0: d = "null pointer"
            else: d = "invalid pointer"
            if not (T.isc(n) and T.cval(n)) and smt.prove(st.facts, T.eq(n, c64(0)), 20)[0]: return Ptr(st.new("nothing", c64(0), "heap"), c64(0))      # no byte is accessed
            self.oblige(st, "memory", FALSE, "%s through %s" % (what, d))
            return None
        o = p.obj
        if o in st.dead:
            self.oblige(st, "memory", FALSE, "%s of freed object %s" % (what, o)); return None
        if write and o.ro:
            self.oblige(st, "frame", FALSE, "%s to read-only object %s" % (what, o)); return None
        g = in_bounds(p.off, n, o.size, st)
        if g is not TRUE:
            self.oblige(st, "memory", g, "%s within %s" % (what, o.name.split("#")[0]))
        elif not self.quiet:
            self.obls.append(("memory", True, "syntactic", what, None, None)); smt.STATS["syntactic"] += 1
        return p
    def load(self, st, mod, ty, p):
        t = mod.resolve(ty)
        if t[0] == "struct" or t[0] == "arr":
            p = self.norm_ptr(st, p)
            if t[0] == "struct":
                offs, _ = mod.layout(t)
                return tuple(self.load(st, mod, x, Ptr(p.obj, T.add(p.off, c64(o)))) for o, x in zip(offs, t[1]))
            n = mod.size(t[2])
            return tuple(self.load(st, mod, t[2], Ptr(p.obj, T.add(p.off, c64(i * n)))) for i in range(t[1]))
        n = mod.size(t)
        p = self.access(st, p, c64(n), "load")
        if p is None:
            if t[0] == "i": return T.fresh("bad", t[1])
            if t[0] == "ptr": return Ptr(None, T.fresh("badp", 64))
            return Dbl(("fresh",))
        v = st.content(p.obj).read(p.off, n, st.dec, st.bnd)
        if n == 8 and isinstance(v, T.T): v = T.named(v)
        if t[0] == "ptr":
            if isinstance(v, T.T): 
                if T.isc(v) and T.cval(v) == 0: return NULL
                return self.int2ptr(st, v)
            return v
        if t[0] in ("double", "float"):
            if isinstance(v, Dbl): return v
            return Dbl(("bits", v))
        if not isinstance(v, T.T): v = self.ptr2int(st, v) if not isinstance(v, Dbl) else T.fresh("dblbits", 64)
        if t[1] < v.w: v = T.trunc(v, t[1])
        return v
    def store(self, st, mod, ty, v, p):
        t = mod.resolve(ty)
        if t[0] == "struct" or t[0] == "arr":
            p = self.norm_ptr(st, p)
            if t[0] == "struct":
                offs, _ = mod.layout(t)
                for o, x, y in zip(offs, t[1], v): self.store(st, mod, x, y, Ptr(p.obj, T.add(p.off, c64(o))))
            else:
                n = mod.size(t[2])
                for i, y in enumerate(v): self.store(st, mod, t[2], y, Ptr(p.obj, T.add(p.off, c64(i * n))))
            return
        n = mod.size(t)
        p = self.access(st, p, c64(n), "store", True)
        if p is None: return
        if isinstance(v, T.T) and v.w < 8 * n: v = T.zext(v, 8 * n)
        if isinstance(v, Ptr) and v.obj is None and T.isc(v.off): v = v.off if T.cval(v.off) == 0 else v.off
        st.wcontent(p.obj).write(p.off, n, v, st.bnd)
    def top(self, st, d, n):
        """a proved upper end of [d, d+n): the first cell the interval bounds cannot separate from it"""
        if T.isc(d.off) and T.isc(n): return None
        e = T.add(d.off, n); lo = st.bnd(d.off)[0]; hi = st.bnd(e)[1]; hi2 = st.bnd(d.off)[1] + st.bnd(n)[1]
        ks = [k for k in st.content(d.obj).cells if lo <= k < min(hi, hi2) or lo <= k < hi2]
        if not ks: return None
        k = min(ks)
        ks2 = sorted(ks)
        for k in ks2[:1] + [k for a, k in zip(ks2, ks2[1:]) if k > a + st.content(d.obj).cells[a][0]][:2]:
            if self.decide(st, ule(e, c64(k))) is True: return k
        return None
    def unique(self, st, n):
        """the value of n when its range and its known low bits leave only one"""
        if T.isc(n) or n.op != "add": return n
        c, ts = n.a; k = min([(q & -q).bit_length() - 1 + T.tz(x) for q, x in ts] + [n.w]); lo, hi = st.facts.bnd.rng(n)
        if not k or hi - lo >= 1 << k: return n
        v = lo + ((c - lo) & ((1 << k) - 1))
        return const(v, n.w) if v <= hi else n
    def memcpy(self, st, d, s, n, move=False):
        n = self.unique(st, n)
        if T.isc(n) and T.cval(n) == 0: return
        if self.decide(st, eq(n, c64(0)), sm=True) is True: return
        if st.facts.cheap(ne(n, c64(0))) is not True and not T.isc(n):
            # bounds must hold for the copied range only when n > 0: in_bounds covers n == 0 at the end of an object
            pass
        d = self.access(st, d, n, "memcpy destination", True); s = self.access(st, s, n, "memcpy source")
        if d is None or s is None: return
        if d.obj is s.obj and not move:
            self.oblige(st, "memory", or_(eq(n, c64(0)), ule(T.add(d.off, n), s.off), ule(T.add(s.off, n), d.off)), "memcpy ranges do not overlap")
        src = st.content(s.obj)
        if d.obj is s.obj: src = Content(src.base, dict(src.cells))
        st.wcontent(d.obj).copyin(d.off, n, src, s.off, st.dec, st.bnd, top=self.top(st, d, n))
    def memset(self, st, d, v, n):
        n = self.unique(st, n)
        if T.isc(n) and T.cval(n) == 0: return
        if self.decide(st, eq(n, c64(0)), sm=True) is True: return
        d = self.access(st, d, n, "memset", True)
        if d is None: return
        st.wcontent(d.obj).fill(d.off, n, v, st.bnd, top=self.top(st, d, n))

    # ---------------------------------------------------------------- running
    def call(self, st, fn, args, varargs=None):
        """run fn to completion; list of outcome states (kind 'ret'/'throw'), result in .result"""
        base = len(st.frames)
        self.push(st, fn, args, None, varargs)
        outs = self.run(st, lambda s, pred: None, base)
        return outs
    def push(self, st, fn, args, retins, varargs=None):
        if len(st.frames) > 60: raise Unsupported("call depth")
        f = Frame(); f.fn = fn; f.env = {}; f.block = fn.order[0]; f.idx = 0; f.prev = None; f.ret = retins; f.varargs = varargs
        f.locals = []; f.unroll = {}; f.fid = next(Frame._n)
        for (nm, t), a in zip(fn.params, args): f.env[nm] = a
        st.frames.append(f)
        self.used_funcs.add(fn.name)
        ir.analyse(fn)

    def run(self, st, stop, base, first=True):
        """stop(state, pred_block) -> tag or None, consulted after each jump. Returns states with .kind set"""
        outs = []; work = [st]; nf = 0
        while work:
            s = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps: raise Budget("step budget")
                if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline: raise Budget("time budget")
                fr = s.frames[-1]
                blk = fr.fn.blocks[fr.block]
                if fr.idx < len(blk.ins):
                    I = blk.ins[fr.idx]
                    try:
                        r = self.step(s, fr, I)
                    except Fork as fk:
                        if fk.data: self.undecided(s)
                        nf += 1
                        if nf > self.fork_limit: raise Budget("fork budget")
                        s2 = s.clone()
                        s.facts.add(fk.cond); s2.facts.add(not_(fk.cond))
                        if not s2.facts.false: work.append(s2)
                        if s.facts.false: break
                        continue
                    if r is None: continue
                    # list of successor states (kinds possibly set)
                    nxt = []
                    for x in r:
                        if x.kind is not None: outs.append(x)
                        else: nxt.append(x)
                    if len(nxt) > 1: nf += len(nxt) - 1
                    if nf > self.fork_limit: raise Budget("fork budget")
                    if not nxt: break
                    work.extend(nxt[1:]); s = nxt[0]
                    continue
                # terminator
                try:
                    r = self.term(s, fr, blk.term, stop, base)
                except Fork as fk:
                    if fk.data: self.undecided(s)
                    s2 = s.clone()
                    s.facts.add(fk.cond); s2.facts.add(not_(fk.cond))
                    if not s2.facts.false: work.append(s2)
                    if s.facts.false: break
                    continue
                nxt = []
                for x in r:
                    if x.kind is not None: outs.append(x)
                    else: nxt.append(x)
                if len(nxt) > 1: nf += len(nxt) - 1
                if nf > self.fork_limit: raise Budget("fork budget")
                if not nxt: break
                work.extend(nxt[1:]); s = nxt[0]
        return outs

    def goto(self, s, target, stop, base):
        """jump; handles phis, stop predicate and loop entry. returns list of states"""
        fr = s.frames[-1]; pred = fr.block
        blk = fr.fn.blocks[target]
        if blk.phis:
            vals = []
            for ph in blk.phis:
                for v, b in ph.x:
                    if b == pred: vals.append((ph.res, self.val(s, ph.ty, v))); break
                else: raise Unsupported("phi without edge")
            for r, v in vals: fr.env[r] = v
        fr.prev = pred; fr.block = target; fr.idx = 0
        k = stop(s, pred)
        if k is not None:
            s.kind = k; return [s]
        loops = ir.analyse(fr.fn)[3]
        L = loops.get(target)
        if L is not None:
            if pred not in L.body: return self.enter_loop(s, L, stop, base)
            u = fr.unroll.get(target)
            if u is not None:
                fr.unroll = dict(fr.unroll); fr.unroll[target] = u + 1
                if u > 5000: raise Budget("unrolling")
                # every iteration splits and the trip count is not bounded by anything visible: by invariant
                if u > 16 and fr.unroll.get(("f", target), 0) > 8 and not fr.unroll.get(("b", target)): raise LoopUndecided((fr.fid, target))
        return [s]

    def branch(self, s, c, ta, tb, stop, base):
        fr = s.frames[-1]
        loops = ir.analyse(fr.fn)[3]
        v = s.facts.cheap(c)
        if v is None: v = self.decide(s, c)
        if v is not None: return self.goto(s, ta if v else tb, stop, base)
        # undecided: is this an exiting branch of a loop being unrolled without bound?
        for h, u in fr.unroll.items():
            L = loops.get(h)
            if L and fr.block in L.body and ((ta in L.body) != (tb in L.body)):
                if not self.bounded_loop(s, fr, L): raise LoopUndecided((fr.fid, h))
        if ta == tb: return self.goto(s, ta, stop, base)
        if fr.unroll:
            fr.unroll = dict(fr.unroll)
            for h in [h for h in fr.unroll if not isinstance(h, tuple)]: fr.unroll[("f", h)] = fr.unroll.get(("f", h), 0) + 1
        s2 = s.clone()
        self.branched.add(c.a[0] if c.op == "not" else c)
        for x in (c, not_(c)):
            if x.op == "and": self.branched.update(y.a[0] if y.op == "not" else y for y in x.a)
        s.facts.add(c); s2.facts.add(not_(c))
        if self.merging > 0 or self.inside_unroll(s):
            J = ir.analyse(fr.fn)[2].get(fr.block)
            if J and J != "<exit>":
                return self.merge_branch([(s, ta), (s2, tb)], J, stop, base)
        r = []
        if not s.facts.false: r += self.goto(s, ta, stop, base)
        if not s2.facts.false: r += self.goto(s2, tb, stop, base)
        return r
    def undecided(self, s):
        """a callee's outcome is open: a loop being unrolled without a bound around it must be treated by invariant"""
        for fr in reversed(s.frames):
            for h in fr.unroll:
                if not isinstance(h, tuple) and not fr.unroll.get(("b", h)): raise LoopUndecided((fr.fid, h))
    def inside_unroll(self, s):
        return any(f.unroll for f in s.frames)

    def bounded_loop(self, s, fr, L):
        """some exit test compares an induction variable with constant start and step against a bounded value"""
        b = fr.unroll.get(("b", L.header))
        return bool(b)
    def classify(self, s, fr, L):
        """trip bound from an exit test on a constant-start induction phi, else None"""
        fn = fr.fn
        defs = {}
        for b in L.body:
            for I in fn.blocks[b].ins: defs[I.res] = (I, b)
        hdr = fn.blocks[L.header]; phis = {p.res: p for p in hdr.phis}
        best = None
        for b, x in L.exits:
            t = fn.blocks[b].term
            if t.op != "cbr" or t.a[0][0] != "r": continue
            d = defs.get(t.a[0][1])
            if d is None or d[0].op != "icmp": continue
            for side in (0, 1):
                v = d[0].a[side]; o = d[0].a[1 - side]
                while v[0] == "r" and v[1] in defs and defs[v[1]][0].op in ("zext", "sext", "trunc", "add") and v[1] not in phis:
                    J = defs[v[1]][0]
                    if J.op == "add" and J.a[1][0] != "c": break
                    v = J.a[0]
                if v[0] != "r" or v[1] not in phis: continue
                iv = fr.env.get(v[1])
                if not isinstance(iv, T.T): continue
                # step constant?
                ph = phis[v[1]]; stepok = False
                for val, pb in ph.x:
                    if pb in L.body:
                        stepok = val[0] == "r" and val[1] in defs and defs[val[1]][0].op in ("add", "sub") and \
                            defs[val[1]][0].a[0] == ("r", v[1]) and defs[val[1]][0].a[1][0] == "c"
                if not stepok: continue
                # the other side loop-invariant and bounded
                if o[0] == "r" and (o[1] in defs or o[1] in phis):
                    J = defs.get(o[1])
                    while J and J[0].op in ("zext", "sext") and J[0].a[0][0] == "r" and J[0].a[0][1] in defs: J = defs.get(J[0].a[0][1])
                    if not (J and J[0].op in ("zext", "sext") and J[0].a[0][0] == "r" and J[0].a[0][1] in fr.env and J[0].a[0][1] not in phis): continue
                    ov = fr.env[J[0].a[0][1]]
                else:
                    try: ov = self.val(s, d[0].ty, o)
                    except Unsupported: continue
                if not isinstance(ov, T.T): continue
                l1, h1 = s.bnd(iv); l2, h2 = s.bnd(ov)
                n = max(h1, h2) - min(l1, l2)
                if n <= self.unroll_bound and l1 == h1 or n <= 32: best = n if best is None else min(best, n)
        return best
    unroll_bound = 300

    def enter_loop(self, s, L, stop, base):
        fr = s.frames[-1]; h = L.header; depth = len(s.frames); fid = fr.fid
        body = L.body
        def lstop(x, pred):
            if len(x.frames) < depth: return None
            f = x.frames[depth - 1]
            if f.fid != fid: return None
            if len(x.frames) == depth and f.block not in body: return "exit"
            return None
        snap = s.clone(); nob = len(self.obls); save = (self.merging, set(self.used_funcs))
        fr.unroll = dict(fr.unroll); fr.unroll[h] = 0; fr.unroll.pop(("f", h), None)
        cl = self.classify(s, fr, L)
        fr.unroll[("b", h)] = cl is not None
        try:
            outs = self.run(s, lstop, depth - 1 if depth - 1 >= base else base)
            res = []
            groups = {}
            for x in outs:
                if x.kind == "exit":
                    x.kind = None
                    f = x.frames[-1]; f.unroll = {k: v for k, v in f.unroll.items() if k != h and k != ("b", h) and k != ("f", h)}
                    groups.setdefault(f.block, []).append(x)
                else: res.append(x)
            for b, xs in groups.items():
                if len(xs) > 1: xs = self.merge_list(xs)
                for x in xs: res += self.resume_at(x, stop, base, snap, body)
            return res
        except (LoopUndecided, LoopFail) as e:
            # (an inner loop that cannot be treated inside a tentative unrolling may still be under this loop's invariant)
            if isinstance(e, LoopUndecided) and e.key != (fid, h) or isinstance(e, LoopFail) and (cl is not None or not fr.unroll): raise
            del self.obls[nob:]; self.merging = save[0]
            outs = self.sym_loop(snap, L)
            res = []
            for x in outs:
                if x.kind == "exit":
                    x.kind = None; res += self.resume_at(x, stop, base, snap, body)
                else: res.append(x)
            return res
    def resume_at(self, x, stop, base, snap, body):
        """x sits at a block outside the loop just left: apply stop predicate / enclosing loop entry"""
        fr = x.frames[-1]; pred = fr.prev
        k = stop(x, pred)
        if k is not None:
            x.kind = k; return [x]
        loops = ir.analyse(fr.fn)[3]
        L2 = loops.get(fr.block)
        if L2 is not None:
            if pred not in L2.body: return self.enter_loop(x, L2, stop, base)
            u = fr.unroll.get(fr.block)
            if u is not None: fr.unroll = dict(fr.unroll); fr.unroll[fr.block] = u + 1
        return [x]

    # ---------------------------------------------------------------- merging
    def merge_branch(self, pairs, J, stop, base):
        s = pairs[0][0]
        depth = len(s.frames); fid = s.frames[-1].fid
        def mstop(x, pred):
            k = stop(x, pred)
            if k is not None: return ("outer", k)
            f = x.frames[-1]
            if len(x.frames) == depth and f.fid == fid and f.block == J: return "join"
            return None
        outs = []
        for x, t in pairs:
            if x.facts.false: continue
            for y in self.goto(x, t, mstop, base):
                if y.kind is not None: outs.append(y)
                else: outs += self.run(y, mstop, base)
        js = [y for y in outs if y.kind == "join"]
        res = []
        for y in outs:
            if isinstance(y.kind, tuple) and y.kind[0] == "outer": y.kind = y.kind[1]; res.append(y)
            elif y.kind != "join": res.append(y)
        outer = [y for y in outs if y.kind not in ("join", None)]
        if len(js) > 1: js = self.merge_list(js)
        for y in js:
            y.kind = None
            # loop header joins: account for unrolling / loop entry as goto would
            res += self.resume_at(y, stop, base, None, None)
        # states stopped by the outer predicate at the same place may also be merged
        groups = {}
        rest = []
        for y in res:
            if y.kind is not None and y.kind not in ("ret", "throw", "dead") : groups.setdefault((y.kind, y.frames[-1].block if y.frames else None, len(y.frames)), []).append(y)
            else: rest.append(y)
        for k, ys in groups.items():
            if len(ys) > 1:
                kd = ys[0].kind
                ys = self.merge_list(ys)
                for y in ys: y.kind = kd
            rest += ys
        return rest
    def merge_list(self, xs):
        out = [xs[0]]
        for y in xs[1:]:
            m = self.merge2(out[-1], y)
            if m is None: out.append(y)
            else: out[-1] = m
        return out
    def merge2(self, a, b):
        """merge states at the same program point (a's path facts select a)"""
        if len(a.frames) != len(b.frames): return None
        for f, g in zip(a.frames, b.frames):
            if f.fn is not g.fn or f.block != g.block or f.idx != g.idx: return None
        fa, fb = a.facts, b.facts
        la = [f for f in fa.list if f not in fb.set]; lb = [f for f in fb.list if f not in fa.set]
        if a.result is not None or b.result is not None: return None
        ca = and_(*la); 
        # a discriminating condition: some fact of a whose negation is a fact of b
        c = None
        for f in la:
            if not_(f) in fb.set: c = f; break
        if c is None: c = ca
        m = State.__new__(State)
        m.tok = next(State._n); m.kind = None; m.result = None; m.exc = a.exc; m.trace = a.trace
        m.frames = []
        try:
            for f, g in zip(a.frames, b.frames):
                h = f.clone(); h.env = {}
                for k, v in f.env.items():
                    if k in g.env:
                        w = g.env[k]
                        if v is w: h.env[k] = v; continue
                        x = merge_val(c, v, w)
                        if x is not None: h.env[k] = x
                h.unroll = {k: (max(v, g.unroll[k]) if not isinstance(v, bool) else v) for k, v in f.unroll.items() if k in g.unroll}
                h.prev = f.prev
                m.frames.append(h)
            m.mem = {}
            for o, ca_ in a.mem.items():
                cb = b.mem.get(o)
                if cb is None or cb is ca_: m.mem[o] = ca_; continue
                m.mem[o] = merge_content(c, ca_, cb, m.tok)
            for o, cb in b.mem.items():
                if o not in a.mem: m.mem[o] = cb
            m.ghost = {}
            for k in a.ghost:
                if k in b.ghost:
                    if a.ghost[k] is b.ghost[k]: m.ghost[k] = a.ghost[k]
                    else:
                        x = merge_val(c, a.ghost[k], b.ghost[k])
                        if x is None: return None
                        m.ghost[k] = x
        except MemError: return None
        if a.dead != b.dead: return None
        m.dead = set(a.dead)
        F = smt.Facts()
        # common facts in order, then the disjunction
        for f in fa.list:
            if f in fb.set: F.add(f)
        for f in fa.hyps: F.hyps.append(f)
        for f in fb.hyps:
            if f not in F.hyps: F.hyps.append(f)
        cb_ = and_(*lb)
        F.add(or_(ca, cb_))
        if c is not ca:
            for f in la:
                if f is not c: F.add(T.implies(c, f))
            for f in lb:
                if f is not not_(c): F.add(or_(c, f))
        m.facts = F
        return m

    # ---------------------------------------------------------------- terminators
    def term(self, s, fr, t, stop, base):
        op = t.op
        if op == "br": return self.goto(s, t.x[0], stop, base)
        if op == "cbr":
            c = self.val(s, ("i", 1), t.a[0])
            return self.branch(s, c, t.x[0], t.x[1], stop, base)
        if op == "switch":
            v = self.val(s, t.ty, t.a[0])
            pairs = []; cur = s
            for k, (cv, lab) in enumerate(t.x[1]):
                c = eq(v, const(cv, v.w))
                d = self.decide(cur, c)
                if d is True: pairs.append((cur, lab)); cur = None; break
                if d is False: continue
                s2 = cur.clone(); s2.facts.add(c); cur.facts.add(not_(c))
                if not s2.facts.false: pairs.append((s2, lab))
                if cur.facts.false: cur = None; break
            if cur is not None: pairs.append((cur, t.x[0]))
            if len(pairs) > 1 and (self.merging > 0 or self.inside_unroll(s)):
                J = ir.analyse(fr.fn)[2].get(fr.block)
                if J and J != "<exit>": return self.merge_branch(pairs, J, stop, base)
            res = []
            for x, lab in pairs: res += self.goto(x, lab, stop, base)
            return res
        if op == "ret":
            v = self.val(s, t.ty, t.a[0]) if t.a else None
            return self.do_return(s, v, stop, base)
        if op == "unreachable":
            self.oblige(s, "safety", FALSE, "unreachable reached in " + fr.fn.name)
            s.kind = "dead"; return []
        if op == "invoke":
            return self.do_call(s, fr, t, stop, base)
        if op == "resume":
            v = self.val(s, t.ty, t.a[0])
            return self.unwind(s, s.exc, stop, base, pop=True)
        raise Unsupported("terminator " + op)
    def do_return(self, s, v, stop, base):
        fr = s.frames.pop()
        for o in fr.locals: s.dead.add(o)
        if fr.locals:
            for o in fr.locals: s.mem.pop(o, None)
        if len(s.frames) <= base and fr.ret is None:
            s.kind = "ret"; s.result = v; return [s]
        f2 = s.frames[-1]; I = fr.ret
        if I.res: f2.env[I.res] = v
        if I.op == "invoke": return self.goto(s, I.x[1], stop, base)
        f2.idx += 1
        return [s]
    def unwind(self, s, exc, stop, base, pop):
        """propagate an exception out of the current frame"""
        s.exc = exc
        while True:
            if pop:
                fr = s.frames.pop()
                for o in fr.locals: s.mem.pop(o, None); s.dead.add(o)
                I = fr.ret
                if I is None or len(s.frames) <= base:
                    s.kind = "throw"; s.result = exc; return [s]
                if I.op == "invoke":
                    return self.goto(s, I.x[2], stop, base)
                pop = True
            else: pop = True
    def throw(self, s, fr, I, exc, stop, base):
        s.exc = exc
        if I.op == "invoke": return self.goto(s, I.x[2], stop, base)
        return self.unwind(s, exc, stop, base, pop=True)

    # ---------------------------------------------------------------- instructions
    def widen(self, s, t): return widen(s, t)
    def step(self, s, fr, I):
        op = I.op; env = fr.env
        if op in BIN:
            a = self.val(s, I.ty, I.a[0]); b = self.val(s, I.ty, I.a[1])
            v = self.binop(s, op, a, b, I)
            env[I.res] = self.widen(s, v) if op in ("lshr", "udiv", "and") else v
        elif op == "icmp":
            a = self.val(s, I.ty, I.a[0]); b = self.val(s, I.ty, I.a[1])
            env[I.res] = self.icmp(s, I.x, a, b)
        elif op in ("zext", "sext", "trunc"):
            v = self.val(s, I.x, I.a[0]); w = fr.fn.mod.resolve(I.ty)[1]
            env[I.res] = self.widen(s, T.zext(v, w)) if op == "zext" else T.sext(v, w) if op == "sext" else T.trunc(v, w)
        elif op == "getelementptr":
            mod = fr.fn.mod
            p = self.val(s, ("ptr",), I.a[0])
            env[I.res] = self.gep(s, mod, I.ty, p, [(t, self.val(s, t, v)) for t, v in I.x])
        elif op == "load":
            p = self.val(s, ("ptr",), I.a[0])
            env[I.res] = self.load(s, fr.fn.mod, I.ty, p)
        elif op == "store":
            v = self.val(s, I.ty, I.a[0]); p = self.val(s, ("ptr",), I.a[1])
            self.store(s, fr.fn.mod, I.ty, v, p)
        elif op == "alloca":
            n = fr.fn.mod.size(I.ty)
            cnt = T.zext(self.val(s, I.x, I.a[0]), 64) if I.x != ("i", 64) else self.val(s, I.x, I.a[0])
            sz = T.mul(cnt, c64(n))
            if not T.isc(sz) or T.cval(sz) > STACKMAX: self.oblige(s, "stack", ule(sz, c64(STACKMAX)), "local array %s of %s has bounded size" % (I.res, fr.fn.name))
            o = s.new(I.res, sz, "stack"); fr.locals = fr.locals + [o]
            env[I.res] = Ptr(o, c64(0))
        elif op == "select":
            c = self.val(s, ("i", 1), I.a[0]); a = self.val(s, I.ty, I.a[1]); b = self.val(s, I.ty, I.a[2])
            v = s.facts.cheap(c)
            if v is not None: env[I.res] = a if v else b
            else:
                x = merge_val(c, a, b)
                if x is None: raise Unsupported("select")
                env[I.res] = x
        elif op in ("call",):
            return self.do_call(s, fr, I, None, None)
        elif op == "ptrtoint":
            env[I.res] = T.trunc(self.ptr2int(s, self.val(s, I.x, I.a[0])), fr.fn.mod.resolve(I.ty)[1])
        elif op == "inttoptr": env[I.res] = self.int2ptr(s, self.val(s, I.x, I.a[0]))
        elif op == "freeze" or op == "bitcast": env[I.res] = self.val(s, I.ty if op == "freeze" else I.x, I.a[0])
        elif op == "extractvalue":
            v = self.val(s, I.ty, I.a[0])
            for k in I.x: v = v[k]
            env[I.res] = v
        elif op == "insertvalue":
            v = self.val(s, I.ty, I.a[0]); e = self.val(s, I.x[0], I.a[1])
            def ins(v, ix):
                if not ix: return e
                v = list(v); v[ix[0]] = ins(v[ix[0]], ix[1:]); return tuple(v)
            env[I.res] = ins(v, I.x[1])
        elif op == "landingpad":
            self.landingpad(s, fr, I)
        elif op in ("uitofp", "sitofp"):
            env[I.res] = Dbl((op, self.val(s, I.x, I.a[0])))
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            env[I.res] = Dbl((op, self.val(s, I.ty, I.a[0]), self.val(s, I.ty, I.a[1])))
        elif op in ("fptoui", "fptosi"):
            env[I.res] = self.fp2int(s, self.val(s, I.x, I.a[0]), fr.fn.mod.resolve(I.ty)[1], op)
        else:
            raise Unsupported("instruction %s in %s: %s" % (op, fr.fn.name, I.line))
        fr.idx += 1
        return None
    def landingpad(self, s, fr, I):
        e = s.exc
        p = e[1] if isinstance(e, tuple) and len(e) > 1 else Ptr(None, T.fresh("exc", 64))
        fr.env[I.res] = (p, T.fresh("sel", 32))
    def fp2int(self, s, d, w, op):
        r = FPLEMMA(self, s, d, w)
        if r is None: raise Unsupported("floating-point expression %r" % (d,))
        return r
    def binop(self, s, op, a, b, I):
        if not isinstance(a, T.T) or not isinstance(b, T.T): raise Unsupported("binop on pointers")
        fl = I.x or ()
        w = a.w
        if "nsw" in fl and op in ("add", "sub", "mul", "shl"):
            g = no_sovf(op, a, b, s)
            if g is not TRUE: self.oblige(s, "overflow", g, "signed %s does not overflow" % op)
        if op == "add": return T.add(a, b)
        if op == "sub": return T.sub(a, b)
        if op == "mul": return T.mul(a, b)
        if op == "and": return T.band(a, b)
        if op == "or": return T.bor(a, b)
        if op == "xor": return T.bxor(a, b)
        if op in ("shl", "lshr", "ashr"):
            g = ult(b, const(w, w)) if w > 1 else TRUE
            if g is not TRUE: self.oblige(s, "shift", g, "shift amount below width")
            b = s.facts.simp(b)
            return T.shl(a, b) if op == "shl" else T.lshr(a, b) if op == "lshr" else T.ashr(a, b)
        g = ne(b, const(0, w))
        if g is not TRUE: self.oblige(s, "division", g, "divisor is not zero")
        if op in ("sdiv", "srem"):
            la, ha = s.bnd(a); lb, hb = s.bnd(b); h = 1 << (w - 1)
            if ha < h and hb < h: op = "u" + op[1:]
            else:
                g = not_(and_(eq(a, const(h, w)), eq(b, const(mask(w), w))))
                if g is not TRUE: self.oblige(s, "overflow", g, "signed division does not overflow")
        return getattr(T, op)(a, b)
    def cmpnorm(self, s, a, b):
        """unsigned comparison: drop common factors of two, and compare sums of truncated values as the sums themselves when nothing wraps"""
        w = a.w
        if w == 1 or a.op not in ("add", "concat") and b.op not in ("add", "concat"): return a, b
        k = min(T.tz(a), T.tz(b))
        if 0 < k < w: a = self.widen(s, T.lshrc(a, k)); b = self.widen(s, T.lshrc(b, k))
        if w < 64:
            r = []
            for t in (a, b):
                z = T.zext(t, 64)
                x = self.widen(s, z) if t.op == "add" and any(y.op == "ext" for _, y in t.a[1]) else z
                r.append((x, x is not z))
            if any(c for _, c in r) : a, b = r[0][0], r[1][0]
        return a, b
    def icmp(self, s, pred, a, b):
        if not isinstance(a, T.T) or not isinstance(b, T.T): return self.pcmp(s, pred, a, b)
        if pred in ("eq", "ne", "ult", "ule", "ugt", "uge"): a, b = self.cmpnorm(s, a, b)
        if pred == "eq": return eq(a, b)
        if pred == "ne": return ne(a, b)
        if pred == "ult": return ult(a, b)
        if pred == "ule": return ule(a, b)
        if pred == "ugt": return ult(b, a)
        if pred == "uge": return ule(b, a)
        h = 1 << (a.w - 1)
        if s.bnd(a)[1] < h and s.bnd(b)[1] < h: f, g = ult, ule
        else: f, g = slt, sle
        if pred == "slt": return f(a, b)
        if pred == "sle": return g(a, b)
        if pred == "sgt": return f(b, a)
        return g(b, a)
    def pcmp(self, s, pred, a, b):
        if isinstance(a, T.T): a = self.int2ptr(s, a)
        if isinstance(b, T.T): b = self.int2ptr(s, b)
        if isinstance(a, PIte): return ite(a.c, self.pcmp(s, pred, a.a, b), self.pcmp(s, pred, a.b, b))
        if isinstance(b, PIte): return ite(b.c, self.pcmp(s, pred, a, b.a), self.pcmp(s, pred, a, b.b))
        same = a.obj is b.obj or (isinstance(a.obj, tuple) and isinstance(b.obj, tuple) and a.obj[:2] == b.obj[:2])
        if pred in ("eq", "ne"):
            if same: r = eq(a.off, b.off)
            elif a.obj is None and b.obj is not None or b.obj is None and a.obj is not None:
                n = a if a.obj is None else b
                if T.isc(n.off) and T.cval(n.off) < 4096: r = FALSE
                else: r = eq(self.ptr2int(s, a), self.ptr2int(s, b))
            else: r = FALSE if isinstance(a.obj, tuple) or isinstance(b.obj, tuple) else eq(self.ptr2int(s, a), self.ptr2int(s, b))
            if not same and r.op == "eq" and a.obj is not None and b.obj is not None:
                # distinct live objects: equal only if one is a one-past pointer; treated as unequal in-bounds
                r = FALSE
            return r if pred == "eq" else not_(r)
        if not same:
            return self.icmp(s, pred, self.ptr2int(s, a), self.ptr2int(s, b))
        h = 1 << 63
        sg = not (s.bnd(a.off)[1] < h and s.bnd(b.off)[1] < h)
        lt = slt if sg else ult
        if pred in ("ult", "slt"): return lt(a.off, b.off)
        if pred in ("ule", "sle"): return not_(lt(b.off, a.off))
        if pred in ("ugt", "sgt"): return lt(b.off, a.off)
        return not_(lt(a.off, b.off))

    # ---------------------------------------------------------------- calls
    def do_call(self, s, fr, I, stop, base):
        c = I.a[0]
        if c[0] == "g": name = c[1]; mod = fr.fn.mod
        else:
            p = self.norm_ptr(s, self.val(s, ("ptr",), c))
            if not isinstance(p.obj, tuple): raise Unsupported("indirect call through %r" % (p,))
            name = p.obj[1]; mod = p.obj[2]
        args = [self.val(s, t, v) if t[0] != "meta" else None for t, v in I.x[0]]
        name = mod.aliases.get(name, name) if mod else name
        h = self.ov.get(name)
        if h is None and self.ovdyn is not None: h = self.ovdyn(name)
        if h is not None:
            r = h(self, s, args)
            if r is not NotImplemented: return self.finish(r, s, fr, I, stop, base)
        fn = self.prog.func(name, mod)
        if fn is not None:
            va = None
            if fn.vararg:
                va = args[len(fn.params):]
                vt = [t for t, _ in I.x[0]][len(fn.params):]
                va = list(zip(vt, va))
            self.push(s, fn, args, I, va)
            return [s]
        from . import builtins as B
        h = B.lookup(name)
        if h is None: raise Unsupported("call to unmodelled function " + name)
        self.assumed.add(name)
        r = h(self, s, args)
        return self.finish(r, s, fr, I, stop, base)
    ovdyn = None
    def finish(self, r, s, fr, I, stop, base):
        """r: value | Throw(exc) | list of (state, value|Throw)"""
        if not isinstance(r, list): r = [(s, r)]
        outs = []
        for x, v in r:
            if x.facts.false: continue
            if isinstance(v, Throw):
                if stop is None:
                    outs += self.unwind(x, v.exc, lambda a, b: None, 0, True) if not self._has_invoke(x) else self._unw(x, v)
                else: outs += self.throw(x, x.frames[-1], I, v.exc, stop, base)
                continue
            f = x.frames[-1]
            if I.res: f.env[I.res] = v
            if I.op == "invoke": outs += self.goto(x, I.x[1], stop, base)
            else: f.idx += 1; outs.append(x)
        return outs
    def _has_invoke(self, x): return any(f.ret is not None and f.ret.op == "invoke" for f in x.frames)
    def _unw(self, x, v):
        return self.unwind(x, v.exc, lambda a, b: None, 0, True)

    # ---------------------------------------------------------------- symbolic loops
    def sym_loop(self, S0, L):
        from . import loops
        return loops.sym_loop(self, S0, L)

class Throw:
    def __init__(self, exc): self.exc = exc

class _FP:
    """what is known about a double: value v with lo*t + a <= v <= hi*t + b for an unsigned integer term t (None: 0); whole: an integer"""
    __slots__ = ("lo", "hi", "t", "a", "b", "whole")
    def __init__(s, lo, hi, t, a=0, b=0, whole=False): s.lo = lo; s.hi = hi; s.t = t; s.a = a; s.b = b; s.whole = whole
def fp_key(d):
    e = d.e
    return (e[0],) + tuple(fp_key(x) if isinstance(x, Dbl) else ("t", x.id) if isinstance(x, T.T) else repr(x) for x in e[1:])
def fp_eval(ex, s, d):
    """IEEE double arithmetic, round to nearest: every operation is exact up to a relative error of 2^-53 (no under- or overflow: checked
    by the magnitude bound); constants are folded by the host's identical arithmetic.  float, _FP or None"""
    F = Fraction; U = F(1, 1 << 53); e = d.e; op = e[0]
    if op == "const": return float(e[1])
    if op == "uitofp" or op == "sitofp":
        t = s.facts.simp(e[1])
        if T.isc(t): return float(T.cval(t) if op == "uitofp" else T.sval(t) if hasattr(T, "sval") else T.cval(t) - (1 << t.w if T.cval(t) >> (t.w - 1) else 0))
        if op == "sitofp" and s.bnd(t)[1] >= 1 << (t.w - 1): return None
        t = T.zext(t, 64) if t.w < 64 else t
        if s.bnd(t)[1] >> 53: return _FP(1 - U, 1 + U, t)
        return _FP(F(1), F(1), t, whole=True)
    if op == "ceil" or op == "floor":
        x = fp_eval(ex, s, e[1])
        if x is None: return None
        if isinstance(x, float): return float((math.ceil if op == "ceil" else math.floor)(x))
        if x.whole: return x
        r = _FP(x.lo, x.hi, x.t, x.a, x.b, True)
        if op == "ceil": r.b = x.b + 1
        else: r.a = x.a - 1
        return r
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        x, y = fp_eval(ex, s, e[1]), fp_eval(ex, s, e[2])
        if x is None or y is None: return None
        if isinstance(x, float) and isinstance(y, float):
            try: return {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
            except ZeroDivisionError: return None
        if op == "fmul" and isinstance(x, float): x, y = y, x
        if op == "fadd" and isinstance(x, float): x, y = y, x
        if isinstance(y, float) and isinstance(x, _FP):
            if y != y or y in (math.inf, -math.inf): return None
            c = F(y)
            if op == "fmul": k = c
            elif op == "fdiv" and c != 0: k = 1 / c
            elif op in ("fadd", "fsub"):
                c = c if op == "fadd" else -c; r = _FP(x.lo, x.hi, x.t, x.a + c, x.b + c)
                if r.a < 0: return None
                return _FP(r.lo * (1 - U), r.hi * (1 + U), r.t, r.a * (1 - U), r.b * (1 + U))
            else: return None
            if k <= 0 or x.a < 0 and not x.whole: return None
            k0, k1 = k * (1 - U), k * (1 + U)
            return _FP(x.lo * k0, x.hi * k1, x.t, x.a * (k0 if x.a >= 0 else k1), x.b * k1)
        if op == "fadd" and isinstance(x, _FP) and isinstance(y, _FP) and x.t is y.t and x.a + y.a >= 0:
            return _FP((x.lo + y.lo) * (1 - U), (x.hi + y.hi) * (1 + U), x.t, (x.a + y.a) * (1 - U), (x.b + y.b) * (1 + U))
    return None
def FPLEMMA(ex, s, d, w):
    """conversion of a nonnegative double to an unsigned integer: linear bounds with two-digit coefficients"""
    x = fp_eval(ex, s, d)
    if x is None: return None
    if isinstance(x, float): return const(int(x), w) if 0 <= x < 2 ** w else None
    N = s.bnd(x.t)[1]; top = math.floor(x.hi * N + x.b)
    if top >= 1 << (w - 1): ex.oblige(s, "overflow", FALSE, "the floating-point value fits the integer type"); return None
    Q = 100; p = math.floor(x.lo * Q); a = x.a if x.whole else x.a - 1; p2 = math.ceil(x.hi * Q)
    if x.lo == x.hi and x.lo.denominator <= 1000: Q = x.lo.denominator; p = p2 = x.lo.numerator
    A = math.floor(a * Q); B = math.ceil(x.b * Q)
    if max(Q * (top + 2), p2 * N + abs(A) + B + Q) >= 1 << 64: raise Unsupported("floating-point value too large for exact bounds")
    R = T.zext(T.var("fp" + hashlib.sha256(repr(fp_key(d)).encode()).hexdigest()[:24], max(1, top.bit_length())), 64); lhs = T.linear(0, [(Q, R)], 64)
    s.facts.add(ule(T.linear(max(A, 0), [(p, x.t)], 64), T.linear(max(-A, 0), [(Q, R)], 64))); s.facts.add(ule(lhs, T.linear(B, [(p2, x.t)], 64)))
    return R if w == 64 else T.trunc(R, w)

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}

def in_bounds(off, n, size, st):
    """0 <= off, off + n <= size without wrap"""
    if T.isc(off) and T.isc(n) and T.isc(size):
        return T.boolc(T.cval(off) + T.cval(n) <= T.cval(size))
    lo, hi = st.bnd(off); ln, hn = st.bnd(n); ls, hs = st.bnd(size)
    if hi + hn <= ls: return TRUE
    end = T.add(off, n)
    if end is size and st.facts.cheap(ule(n, size)) is True: return TRUE
    return and_(ule(n, size), ule(off, T.sub(size, n)))

def no_sovf(op, a, b, st):
    w = a.w
    if T.isc(a) and T.isc(b):
        x, y = T.sgn(T.cval(a), w), T.sgn(T.cval(b), w)
        if op == "add": z = x + y
        elif op == "sub": z = x - y
        elif op == "mul": z = x * y
        else: return T.boolc(0 <= y < w and x >= 0 and x << y < 1 << w)   # C: 1<<31 tolerated by clang
        return T.boolc(-(1 << (w - 1)) <= z < 1 << (w - 1))
    h = 1 << (w - 1)
    def srng(t):
        l, u = st.bnd(t)
        if u < h: return l, u
        if l >= h: return l - 2 * h, u - 2 * h
        return -h, h - 1
    (la, ua), (lb, ub) = srng(a), srng(b)
    if op == "add": l, u = la + lb, ua + ub
    elif op == "sub": l, u = la - ub, ua - lb
    elif op == "mul":
        c = [x * y for x in (la, ua) for y in (lb, ub)]; l, u = min(c), max(c)
    else:
        if la >= 0 and lb >= 0 and ub < 4 * w and ua << ub < 2 * h: return TRUE
        w2 = 2 * w
        x = T.shl(T.zext(a, w2), T.zext(b, w2))
        return and_(ule(const(0, w), a), ult(x, const(1 << w, w2)), not_(slt(a, const(0, w))))
    if -h <= l and u < h: return TRUE
    w2 = 2 * w if op == "mul" else w + 1
    x, y = T.sext(a, w2), T.sext(b, w2)
    z = T.add(x, y) if op == "add" else T.sub(x, y) if op == "sub" else T.mul(x, y)
    return eq(z, T.sext(T.trunc(z, w), w2))

def merge_val(c, a, b):
    if a is b: return a
    if isinstance(a, T.T) and isinstance(b, T.T):
        return ite(c, a, b) if a.w == b.w else None
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            same = a.obj is b.obj or (isinstance(a.obj, tuple) and isinstance(b.obj, tuple) and a.obj[:2] == b.obj[:2])
            if same: return Ptr(a.obj, ite(c, a.off, b.off))
        return PIte(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = tuple(merge_val(c, x, y) for x, y in zip(a, b))
        return None if any(x is None for x in r) else r
    if isinstance(a, Dbl) and isinstance(b, Dbl): return None
    if a == b: return a
    return None

def merge_content(c, a, b, tok):
    """ite over contents"""
    cells = {}
    la, lb = {}, {}
    keys = set(a.cells) | set(b.cells)
    done = set()
    rest_a, rest_b = {}, {}
    def dec(_): return None
    for k in keys:
        x, y = a.cells.get(k), b.cells.get(k)
        if x is not None and y is not None and x[0] == y[0]:
            if x[1] is y[1]: cells[k] = x; continue
            v = merge_val(c, x[1], y[1])
            if v is not None: cells[k] = (x[0], v); continue
        if x is not None: rest_a[k] = x
        if y is not None: rest_b[k] = y
    # byte-resolve the rest when the other side can be read at constants
    bytes_ = set()
    for r in (rest_a, rest_b):
        for k, (n, v) in r.items():
            if not isinstance(v, T.T):
                # pointer on one side, plain bytes on the other
                other = b if r is rest_a else a
                oc = other.cells.get(k)
                if oc is None and all(cell_cover(other.cells, k + q) is None for q in range(n)):
                    w = other.base.word(c64(k), n, dec) or read_bytes(other.base, c64(k), n, dec)
                    if T.isc(w) and T.cval(w) == 0: v2 = NULL
                    else: v2 = Ptr(None, w)
                    cells[k] = (n, PIte(c, v, v2) if r is rest_a else PIte(c, v2, v)); continue
                if oc is not None and isinstance(oc[1], T.T) and oc[0] == n:
                    v2 = NULL if T.isc(oc[1]) and T.cval(oc[1]) == 0 else Ptr(None, oc[1])
                    cells[k] = (n, PIte(c, v, v2) if r is rest_a else PIte(c, v2, v)); continue
                raise MemError("merge of pointer cell")
            bytes_.update(range(k, k + n))
    # whole words where the two sides agree on granularity are done above; bytes now
    for q in sorted(bytes_):
        if cell_cover(cells, q) is not None: continue
        va = cell_byte(a.cells, q); vb = cell_byte(b.cells, q)
        if va is None: va = a.base.get(c64(q), dec)
        if vb is None: vb = b.base.get(c64(q), dec)
        cells[q] = (1, ite(c, va, vb))
    base = a.base if a.base is b.base else AIte(c, a.base, b.base)
    return Content(base, cells, tok)
