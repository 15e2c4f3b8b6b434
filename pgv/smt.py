"""Back ends: facts |- goal.  Order: syntactic, substitution of known facts, intervals, congruence, z3, cvc5."""
import math, time, subprocess, os, tempfile
import z3
from . import terms as T
from .terms import TRUE, FALSE, const, eq, not_, and_, or_, mask

STATS = {"syntactic": 0, "rewrite": 0, "interval": 0, "z3": 0, "cvc5": 0, "z3_time": 0.0, "cvc5_time": 0.0, "queries": 0}
TIMEOUT = 20.0
THOROUGH = False

# ------------------------------------------------------------------ translation
_ufs = {}
_uid = [0]
def to_z3(t):
    if t.z3 is not None: return t.z3
    for x in T.postorder([t]):
        if x.z3 is None: x.z3 = _tr(x)
    return t.z3

def _b(x):      # bool -> bv1
    return z3.If(x.z3, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
def _v(x):      # z3 bv of term (bool as bv1)
    return _b(x) if x.w == 1 else x.z3
def _r(w, e):   # bv1 -> bool
    return e == z3.BitVecVal(1, 1) if w == 1 else e

def _tr(x):
    op, a, w = x.op, x.a, x.w
    if op == "const":
        return z3.BoolVal(bool(a[0])) if w == 1 else z3.BitVecVal(a[0], w)
    if op == "var":
        return z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
    if op == "ext": return _r(w, z3.Extract(a[0], a[1], _v(a[2])))
    if op == "concat": return z3.Concat(*[_v(p) for p in a])
    if op == "sext": return z3.SignExt(w - a[0].w, _v(a[0]))
    if op == "add":
        r = None
        for k, t in a[1]:
            e = t.z3 if w > 1 else _v(t)
            if k == 1: e2 = e
            elif k == mask(w): e2 = None
            else: e2 = e * z3.BitVecVal(k, w)
            if r is None: r = e2 if e2 is not None else -e
            else: r = r + e2 if e2 is not None else r - e
        if a[0]: r = r + z3.BitVecVal(a[0], w)
        return _r(w, r)
    if op == "xor":
        r = z3.BitVecVal(a[0], w) if a[0] else None
        for m in a[1]:
            p = _v(m[0])
            for t in m[1:]: p = p & _v(t)
            r = p if r is None else r ^ p
        return _r(w, r)
    if op == "and":
        if w == 1: return z3.And(*[t.z3 for t in a])
        p = a[0].z3
        for t in a[1:]: p = p & t.z3
        return p
    if op == "not": return z3.Not(a[0].z3)
    if op == "xor1": return z3.Xor(a[0].z3, a[1].z3)
    if op == "ite": return z3.If(a[0].z3, a[1].z3, a[2].z3)
    if op == "eq": return _v(a[0]) == _v(a[1])
    if op == "ult": return z3.ULT(_v(a[0]), _v(a[1]))
    if op == "slt": return _v(a[0]) < _v(a[1])
    if op == "uf":
        k = (a[0], w, tuple(t.w for t in a[1:]))
        f = _ufs.get(k)
        if f is None:
            if len(a) == 1: f = z3.BitVec("uf!" + a[0], w)
            else: f = z3.Function("uf!%s!%d" % (a[0], len(_ufs)), *([z3.BitVecSort(t.w) for t in a[1:]] + [z3.BitVecSort(w)]))
            _ufs[k] = f
        r = f if len(a) == 1 else f(*[_v(t) for t in a[1:]])
        return _r(w, r)
    if op == "tbl":
        vals = T.TABLES[a[0]][0]
        idx = _v(a[1]); n = len(vals)
        def tree(lo, bits):
            if lo >= n: return z3.BitVecVal(0, w)
            if bits == 0: return z3.BitVecVal(vals[lo], w)
            l = tree(lo, bits - 1); h = tree(lo + (1 << (bits - 1)), bits - 1)
            if l.eq(h): return l
            return z3.If(z3.Extract(bits - 1, bits - 1, idx) == z3.BitVecVal(1, 1), h, l)
        nb = max(1, (n - 1).bit_length())
        r = tree(0, min(nb, a[1].w))
        if a[1].w > nb: r = z3.If(z3.ULT(idx, z3.BitVecVal(1 << nb, a[1].w)), r, z3.BitVecVal(0, w))
        return _r(w, r)
    v = [_v(t) for t in a]
    if op == "mul":
        p = v[0]
        for t in v[1:]: p = p * t
        return _r(w, p)
    if op == "shl": return _r(w, v[0] << v[1])
    if op == "lshr": return _r(w, z3.LShR(v[0], v[1]))
    if op == "ashr": return _r(w, v[0] >> v[1])
    if op == "udiv": return _r(w, z3.UDiv(v[0], v[1]))
    if op == "urem": return _r(w, z3.URem(v[0], v[1]))
    if op == "sdiv": return _r(w, v[0] / v[1])
    if op == "srem": return _r(w, z3.SRem(v[0], v[1]))
    raise ValueError(op)

def div_axioms(roots):
    """x udiv c: q,r facts that help the bit-blaster with large words (they are theorems of bit-vectors)"""
    out = []
    for x in T.postorder(roots):
        if x.op == "udiv" and T.isc(x.a[1]) and T.cval(x.a[1]):
            c = T.cval(x.a[1])
            out.append(T.ule(x, const(mask(x.w) // c, x.w)))
            q = T.linear(0, [(c, x)], x.w)
            out.append(T.ule(q, x.a[0]))
            out.append(T.ult(T.sub(x.a[0], q), const(c, x.w)))
    return out

# ------------------------------------------------------------------ intervals under facts
class Bounds:
    def __init__(self, parent=None):
        self.b = dict(parent.b) if parent else {}
        self.memo = {}
    def add_fact(self, f):
        neg = f.op == "not"
        g = f.a[0] if neg else f
        if g.op == "ult":
            a, b = g.a
            if neg:         # b <= a
                self._le(b, a, 0)
            else: self._le(a, b, 1)
        elif g.op == "eq" and not neg:
            a, b = g.a
            if T.isc(b): self._set(a, T.cval(b), T.cval(b))
        elif g.op == "eq" and neg:
            a, b = g.a
            if T.isc(b):
                lo, hi = self.rng(a)
                v = T.cval(b)
                if v == lo: self._set(a, lo + 1, hi)
                elif v == hi: self._set(a, lo, hi - 1)
        elif g.op == "slt":
            a, b = g.a
            if neg: a, b = b, a
            h = 1 << (a.w - 1)
            # a < b or a <= b signed
            la, ha = self.rng(a); lb, hb = self.rng(b)
            if la >= 0 and ha < h and hb < h: self._le(a, b, 0 if neg else 1)
            elif T.isc(a) and T.cval(a) < h:      # 0<=a (<,<=) b -> b nonneg
                self._set(b, max(lb, T.cval(a) + (0 if neg else 1)), min(hb, h - 1))
            elif ha < h and la >= 0: self._set(b, max(lb, la), min(hb, h - 1))
            elif T.isc(b) and la >= 0 and lb < h and ha < h: self._le(a, b, 0 if neg else 1)
    def _le(self, a, b, strict):
        la, ha = self.rng(a); lb, hb = self.rng(b)
        self._set(a, la, min(ha, hb - strict))
        self._set(b, max(lb, la + strict), hb)
    def _set(self, t, lo, hi):
        if T.isc(t): return
        l0, h0 = self.rng(t)
        lo = max(lo, l0); hi = min(hi, h0)
        if (lo, hi) == (l0, h0) or lo > hi: return
        self.b[t] = (lo, hi); self.memo = {}
        if t.op == "concat" and T.isc(t.a[0]) and T.cval(t.a[0]) == 0:
            rest = T.ext(t.w - t.a[0].w - 1, 0, t)
            if hi <= mask(rest.w): self._set(rest, lo, hi)
        if t.op == "add" and len(t.a[1]) == 1:
            k, x = t.a[1][0]; c = t.a[0]; M = mask(t.w)
            sc = c - M - 1 if c > M >> 1 else c
            if k == 1:
                lx, hx = self.rng(x)
                if lo - sc >= 0 and hi - sc <= M and lx + sc >= 0 and hx + sc <= M: self._set(x, lo - sc, hi - sc)
    def rng(self, t):
        m = self.memo
        r = m.get(t)
        if r is not None: return r
        if t.lo == t.hi: return t.lo, t.hi
        for x in self._post(t):
            if x in m: continue
            m[x] = self._rng1(x)
        return m[t]
    def _post(self, t):
        out = []; st = [(t, 0)]; m = self.memo; seen = set()
        while st:
            x, d = st.pop()
            if d: out.append(x); continue
            if x in m or x in seen: continue
            seen.add(x)
            st.append((x, 1))
            if x.op in ("add", "concat", "ite", "ext", "udiv", "urem", "mul", "lshr", "and", "sext", "xor"):
                for k in T.kids(x): st.append((k, 0))
        return out
    def _rng1(self, x):
        lo, hi = x.lo, x.hi
        op, a, w = x.op, x.a, x.w
        g = self.memo.get
        def r(t):
            v = g(t)
            return v if v is not None else (t.lo, t.hi)
        M = mask(w)
        if op == "add":
            l = h = a[0]
            for k, t in a[1]:
                tl, th = r(t)
                if k <= M >> 1 or w == 1: l += k * tl; h += k * th
                else:
                    k2 = k - M - 1; l += k2 * th; h += k2 * tl
            if l // (M + 1) == h // (M + 1):
                lo = max(lo, l % (M + 1)); hi = min(hi, h % (M + 1))
        elif op == "concat":
            l = h = 0
            for p in a:
                pl, ph = r(p); l = (l << p.w) | pl; h = (h << p.w) | ph
            lo = max(lo, l); hi = min(hi, h)
        elif op == "ite":
            l1, h1 = r(a[1]); l2, h2 = r(a[2]); lo = max(lo, min(l1, l2)); hi = min(hi, max(h1, h2))
        elif op == "ext":
            l, h = r(a[2])
            if l >> (a[0] + 1) == h >> (a[0] + 1):
                lo = max(lo, (l >> a[1]) & mask(w)); hi = min(hi, (h >> a[1]) & mask(w))
        elif op == "udiv":
            l, h = r(a[0]); l2, h2 = r(a[1])
            if l2 > 0: lo = max(lo, l // h2); hi = min(hi, h // l2)
        elif op == "urem":
            l, h = r(a[0]); l2, h2 = r(a[1])
            if l2 > 0: hi = min(hi, h, h2 - 1)
            if l2 == h2 and l2 > 0 and l // l2 == h // l2: lo = max(lo, l % l2); hi = min(hi, h % l2)
        elif op == "mul":
            l = h = 1
            for t in a:
                tl, th = r(t); l *= tl; h *= th
            if h <= M: lo = max(lo, l); hi = min(hi, h)
        elif op == "lshr":
            l, h = r(a[0]); hi = min(hi, h)
        elif op == "sext":
            l, h = r(a[0])
            if h < 1 << (a[0].w - 1): lo = max(lo, l); hi = min(hi, h)
        elif op == "and" and w > 1:
            hi = min([hi] + [r(t)[1] for t in a])
        b = self.b.get(x)
        if b: lo = max(lo, b[0]); hi = min(hi, b[1])
        if lo > hi: return x.lo, x.hi
        return lo, hi
    def decide(self, c):
        neg = c.op == "not"
        g = c.a[0] if neg else c
        v = None
        if g.op == "ult":
            (la, ha), (lb, hb) = self.rng(g.a[0]), self.rng(g.a[1])
            if ha < lb: v = True
            elif la >= hb: v = False
        elif g.op == "eq":
            (la, ha), (lb, hb) = self.rng(g.a[0]), self.rng(g.a[1])
            if ha < lb or hb < la: v = False
            elif la == ha == lb == hb: v = True
        elif g.op == "slt":
            w = g.a[0].w; h = 1 << (w - 1)
            def sg(r):
                l, u = r
                if u < h: return l, u
                if l >= h: return l - 2 * h, u - 2 * h
                return -h, h - 1
            (la, ha), (lb, hb) = sg(self.rng(g.a[0])), sg(self.rng(g.a[1]))
            if ha < lb: v = True
            elif la >= hb: v = False
        elif g.op == "and" and g.w == 1:
            rs = [self.decide(x) for x in g.a]
            if any(x is False for x in rs): v = False
            elif all(x is True for x in rs): v = True
        elif g.w == 1 and g in self.b:
            l, h = self.b[g]
            if l == h: v = bool(l)
        if v is None: return None
        return v != neg

# ------------------------------------------------------------------ fact sets
class Facts:
    """a conjunction of known facts, with derived substitution and bounds"""
    __slots__ = ("list", "set", "bnd", "sub", "memo", "false", "hyps", "lia", "rules")
    def __init__(self, parent=None):
        if parent is None:
            self.list = []; self.set = set(); self.bnd = Bounds(); self.sub = {}; self.memo = {}; self.false = False; self.hyps = []; self.lia = None; self.rules = []
        else:
            self.list = list(parent.list); self.set = set(parent.set); self.bnd = Bounds(parent.bnd)
            self.sub = dict(parent.sub); self.memo = {}; self.false = parent.false; self.hyps = list(parent.hyps); self.lia = parent.lia; self.rules = list(parent.rules)
    def copy(self): return Facts(self)
    def add_rule(self, f):
        """a fact whose consequences are drawn as soon as it reduces to a non-disjunction"""
        if f not in self.set: self.list.append(f); self.set.add(f); self.rules.append(f); self._rules()
    def _rules(self):
        while True:
            for r in self.rules:
                g = self.simp(r)
                if g is r: continue
                if g is TRUE: self.rules.remove(r); break
                if not (g.op == "not" and g.a[0].op == "and"): self.rules.remove(r); self._add(g); break
            else: return
    def add(self, f):
        self._add(f)
        if self.rules: self._rules()
    def _add(self, f):
        st = [f]
        while st:
            f = st.pop()
            if f.op == "and" and f.w == 1: st.extend(f.a); continue
            if f is TRUE: continue
            if f is FALSE: self.false = True; continue
            if f in self.set: continue
            self.list.append(f); self.set.add(f)
            g = self.simp(f)
            if g is FALSE: self.false = True; continue
            self._learn(f)
            if g is not f: 
                if g.op == "and" and g.w == 1: st.extend(x for x in g.a if x not in self.set)
                else: self._learn(g)
            x = self._residue(g)
            if x is not None and x not in self.set: st.append(x)
    def _residue(self, f):
        """x < k for a linear x whose coefficients share a divisor d: x has at most one value when it is known, as an integer, modulo d >= k"""
        if f.op != "ult": return None
        x, k = f.a
        if x.op != "add" or not T.isc(k) or T.cval(k) > 64: return None
        w = x.w; k = T.cval(k); c, ts = x.a; d = 0; top = 0; half = 1 << (w - 1); sg = lambda q: q - (1 << w) if q >= half else q
        for q, t in ts: d = math.gcd(d, abs(sg(q))); top += abs(sg(q)) * self.bnd.rng(t)[1]
        if d <= 2 or d & (d - 1) == 0 or d < k or top + abs(sg(c)) + k >= half: return None
        v = sg(c) % d
        return eq(x, const(v, w)) if v < k else FALSE
    def _learn(self, f):
        self.bnd.add_fact(f)
        self.memo = {}
        if f.op == "not":
            self.sub.setdefault(f.a[0], FALSE)
            if f.a[0].op == "ult" :
                pass
        elif f.op == "eq":
            a, b = f.a
            self.sub.setdefault(f, TRUE)
            self._solve(a, b)
        else: self.sub.setdefault(f, TRUE)
    def _solve(self, a, b):
        w = a.w
        for x, y in ((a, b), (b, a)):
            if x.op == "concat" and T.isc(x.a[0]) and T.cval(x.a[0]) == 0 and T.isc(y):
                rest = T.ext(x.w - x.a[0].w - 1, 0, x)
                if T.cval(y) <= mask(rest.w): return self._solve(rest, const(T.cval(y), rest.w))
            if x.op in ("var", "uf") and x not in self.sub and (T.isc(y) or not _occurs(x, y)):
                if T.isc(y) or x.op == "var" or x.a[0] == "cnt" and not any(z.op == "uf" for z in T.postorder([y])):
                    self.sub[x] = self.simp(y); self._close(x); return
        if a.op == "add" or b.op == "add":
            d = T.sub(a, b)
            if d.op == "add":
                for k, t in d.a[1]:
                    if k in (1, mask(w)):
                        v = t; pad = 0
                        if t.op == "concat" and len(t.a) == 2 and T.isc(t.a[0]) and T.cval(t.a[0]) == 0: v = t.a[1]
                        if v.op != "var" and not (v.op == "uf" and v.a[0] == "cnt") or v in self.sub: continue
                        if v.op == "uf" and any(z.op == "uf" for _, y in d.a[1] if y is not t for z in T.postorder([y])): continue
                        rest = T.linear(0, [(1, d), (-k, t)], w)
                        if _occurs(v, rest): continue
                        val = T.neg(rest) if k == 1 else rest
                        if v is t: self.sub[v] = self.simp(val)
                        else:
                            # zext(v) = val : only when val fits
                            lo, hi = self.bnd.rng(val)
                            if hi > mask(v.w): continue
                            self.sub[v] = self.simp(T.trunc(val, v.w))
                        self._close(v)
                        return
    def _close(self, v):
        m = {v: self.sub[v]}
        for k in list(self.sub):
            if k is not v and not T.isc(self.sub[k]):
                self.sub[k] = T.subst(self.sub[k], m)
        # orient: drop a self-referential closure
        if _occurs(v, self.sub[v]): del self.sub[v]
    def simp(self, t):
        if T.isc(t) or not self.sub: return t
        for _ in range(4):
            r = T.subst(t, self.sub, self.memo)
            if r is t: break
            t = r
            if T.isc(t): break
        return t
    def cheap(self, c):
        if T.isc(c): return bool(T.cval(c))
        if c in self.set: return True
        if not_(c) in self.set: return False
        v = self.bnd.decide(c)
        if v is not None: return v
        d = self.simp(c)
        if T.isc(d): return bool(T.cval(d))
        if d is not c:
            if d in self.set: return True
            if not_(d) in self.set: return False
            v = self.bnd.decide(d)
        return v

def _occurs(v, t):
    return any(x is v for x in T.postorder([t]))

# ------------------------------------------------------------------ linear integer arithmetic with explicit wrap-around
class Lia:
    """translate bit-vector terms to integers: sums carry an explicit quotient (exact), non-linear terms become
    arbitrary integers of their range (sound over-approximation: 'unsat' carries over to bit-vectors)"""
    def __init__(self, bnd): self.bnd = bnd; self.memo = {}; self.side = []; self.n = 0; self.approx = False
    def new(self, lo, hi):
        if lo == hi: return z3.IntVal(lo)
        self.n += 1
        v = z3.Int("li%d" % self.n)
        self.side.append(v >= lo); self.side.append(v <= hi)
        return v
    def term(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        for x in T.postorder([t]):
            if x not in self.memo: self.memo[x] = self.tr(x)
        return self.memo[t]
    def tr(self, x):
        op, a, w, m = x.op, x.a, x.w, self.memo
        if w == 1:
            if op == "const": return z3.BoolVal(bool(a[0]))
            if op == "not": return z3.Not(m[a[0]])
            if op == "and": return z3.And(*[m[t] for t in a])
            if op == "xor1": return z3.Xor(m[a[0]], m[a[1]])
            if op == "ite": return z3.If(m[a[0]], m[a[1]], m[a[2]])
            if op == "eq" and a[0].w > 1: return m[a[0]] == m[a[1]]
            if op == "ult" and a[0].w > 1: return m[a[0]] < m[a[1]]
            if op == "slt" and a[0].w > 1:
                h = 1 << (a[0].w - 1)
                def sg(t):
                    l, u = self.bnd.rng(t)
                    if u < h: return m[t]
                    if l >= h: return m[t] - 2 * h
                    return z3.If(m[t] < h, m[t], m[t] - 2 * h)
                return sg(a[0]) < sg(a[1])
            self.n += 1
            if op not in ("var", "uf"): self.approx = True
            return z3.Bool("lb%d" % self.n)
        lo, hi = self.bnd.rng(x)
        if op == "const": return z3.IntVal(a[0])
        if op == "add":
            l = h = T.sgn(a[0], w); e = z3.IntVal(T.sgn(a[0], w)); 
            for k, t in a[1]:
                k = T.sgn(k, w); tl, th = self.bnd.rng(t)
                e = e + k * m[t]
                l += k * (tl if k > 0 else th); h += k * (th if k > 0 else tl)
            ql, qh = l >> w, h >> w
            if ql == qh: return e - (ql << w) if ql else e
            q = self.new(ql, qh); r = e - q * (1 << w)
            self.side.append(r >= lo); self.side.append(r <= hi)
            return r
        if op == "concat":
            e = z3.IntVal(0); sh = 0
            for p in reversed(a):
                v = m[p] if p.w > 1 else z3.If(m[p], z3.IntVal(1), z3.IntVal(0))
                e = e + v * (1 << sh); sh += p.w
            return e
        if op == "ext":
            y = a[2]
            if y.w == 1: return self.new(lo, hi)
            yl, yh = self.bnd.rng(y)
            h = self.new(yl >> (a[0] + 1), yh >> (a[0] + 1)); r = self.new(lo, hi)
            low = self.new(0, mask(a[1])) if a[1] else z3.IntVal(0)
            self.side.append(m[y] == h * (1 << (a[0] + 1)) + r * (1 << a[1]) + low)
            return r
        if op == "ite": return z3.If(m[a[0]], m[a[1]], m[a[2]])
        if op in ("udiv", "urem") and T.isc(a[1]) and T.cval(a[1]):
            c = T.cval(a[1]); xl, xh = self.bnd.rng(a[0])
            key = ("dr", a[0], c)
            qr = self.memo.get(key)
            if qr is None:
                q = self.new(xl // c, xh // c); r = self.new(0, min(c - 1, xh))
                self.side.append(m[a[0]] == q * c + r)
                qr = self.memo[key] = (q, r)
            return qr[0] if op == "udiv" else qr[1]
        if op == "urem":
            r = self.new(lo, hi); self.side.append(r <= m[a[0]])
            if self.bnd.rng(a[1])[0] > 0: self.side.append(r < m[a[1]])
            return r
        if op == "sext":
            y = a[0]; h = 1 << (y.w - 1); yl, yh = self.bnd.rng(y)
            if yh < h: return m[y]
            if yl >= h: return m[y] + (1 << w) - 2 * h
            return z3.If(m[y] < h, m[y], m[y] + ((1 << w) - 2 * h))
        if op not in ("var", "uf"): self.approx = True
        return self.new(lo, hi)

def lia_ok(goal):
    """worth trying: comparisons over sums"""
    for x in T.postorder([goal]):
        if x.op in ("add", "udiv", "urem"): return True
    return goal.op in ("ult", "not", "eq")

class LiaCtx:
    """an integer solver frozen on a prefix of a fact list; later facts and goals are checked in a scope above it"""
    def __init__(self, facts):
        self.base = list(facts.list) + list(facts.hyps); self.set = set(self.base)
        self.bnd = Bounds(facts.bnd); self.L = Lia(self.bnd); self.s = z3.SolverFor("QF_LIA"); self.nside = 0
        for f in self.base:
            if lin_fact(f): self.s.add(self.L.term(f))
        self.flush()
    def flush(self):
        L = self.L
        for c in L.side[self.nside:]: self.s.add(c)
        self.nside = len(L.side)
    def run(self, facts, goals, timeout):
        """for each goal: is it entailed? stops at the first that is; returns its index or None, and whether some sat answer was exact"""
        L = self.L; L.approx = False
        ex = [L.term(f) for f in facts.list + facts.hyps if f not in self.set and lin_fact(f)]
        gs = [L.term(g) for g in goals]
        self.flush()
        t0 = time.time(); self.s.set("timeout", int(timeout * 1000)); hit = None
        self.s.push()
        try:
            for f in ex: self.s.add(f)
            for k, g in enumerate(gs):
                STATS["queries"] += 1
                if self.s.check(z3.Not(g)) == z3.unsat: hit = k; break
        finally: self.s.pop()
        STATS["z3_time"] += time.time() - t0
        return hit, not L.approx
def lia_ctx(facts):
    c = facts.lia
    if c is None or len(facts.list) + len(facts.hyps) - len(c.base) > 16 or not all(f in facts.set or f in facts.hyps for f in c.base): c = facts.lia = LiaCtx(facts)
    return c
def lia_rel(facts, goal, fl, timeout):
    """the same on the relevant facts only, with the current bounds"""
    try:
        L = Lia(facts.bnd); s = z3.SolverFor("QF_LIA"); s.set("timeout", int(timeout * 1000))
        for f in fl:
            if lin_fact(f): s.add(L.term(f))
        s.add(z3.Not(L.term(goal)))
        for c in L.side: s.add(c)
    except z3.Z3Exception: return False
    t0 = time.time(); r = s.check(); STATS["z3_time"] += time.time() - t0; STATS["queries"] += 1
    return r == z3.unsat
def lia_check(facts, goal, fl, timeout):
    try: return lia_ctx(facts).run(facts, [goal], timeout)[0] == 0
    except z3.Z3Exception: return False
_lin = {}
def lin_fact(f):
    r = _lin.get(f)
    if r is None:
        r = _lin[f] = sum(1 for _ in T.postorder([f])) < 400
    return r

_cache = {}
def check(facts, goal, timeout=None, want_model=False):
    """'proved' / ('cex', model) / 'unknown' for facts |- goal by SMT"""
    timeout = timeout or TIMEOUT
    fl = relevant(facts.list + facts.hyps, goal)
    key = (goal, frozenset(fl))
    if key in _cache and not want_model: return _cache[key]
    lia = lia_ok(goal)
    if lia and (lia_check(facts, goal, fl, 0.3) or lia_rel(facts, goal, fl, 1.5)):
        STATS["z3"] += 1; _cache[key] = "proved"; return "proved"
    s = z3.Solver()
    t0 = time.time()
    asm = list(fl) + div_axioms(list(fl) + [goal])
    for f in asm: s.add(to_z3(f))
    s.add(z3.Not(to_z3(goal)))
    s.set("timeout", 1000 if lia else int(timeout * 1000))
    r = s.check()
    if r == z3.unknown and lia:
        if lia_check(facts, goal, fl, 5.0):
            STATS["z3"] += 1; _cache[key] = "proved"; return "proved"
        s.set("timeout", int(timeout * 1000)); r = s.check()
    STATS["z3_time"] += time.time() - t0; STATS["queries"] += 1
    if r == z3.unsat:
        STATS["z3"] += 1
        if THOROUGH:
            c = cvc5_check(s, timeout)
            if c == "sat": res = "unknown"; _cache[key] = res; return res
        res = "proved"
    elif r == z3.sat:
        res = ("cex", _model(s.model()))
    else:
        t0 = time.time()
        c = cvc5_check(s, timeout)
        res = "proved" if c == "unsat" else "unknown"
        if c == "unsat": STATS["cvc5"] += 1
    _cache[key] = res
    return res

_dcache = {}
def decide(facts, c):
    """True/False/None: is the branch condition forced?  One integer context for both directions; bit-vectors only
    when the condition is not linear.  None is always a safe answer."""
    fl = relevant(facts.list + facts.hyps, c)
    key = (c, frozenset(fl))
    if key in _dcache: return _dcache[key]
    res = None; bv = True
    try:
        hit, exact = lia_ctx(facts).run(facts, [c, not_(c)], 1.5)
        if hit is not None: res = hit == 0; bv = False
        elif exact: bv = False
    except z3.Z3Exception: pass
    if bv and sum(1 for _ in T.postorder([c])) < 400:
        s = z3.Solver(); s.set("timeout", 1500); t0 = time.time()
        for f in list(fl) + div_axioms(list(fl) + [c]): s.add(to_z3(f))
        z = to_z3(c)
        if s.check(z3.Not(z)) == z3.unsat: res = True
        elif s.check(z) == z3.unsat: res = False
        STATS["z3_time"] += time.time() - t0; STATS["queries"] += 2
    _dcache[key] = res
    return res

def cvc5_check(s, timeout):
    t0 = time.time()
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), f.name], capture_output=True, timeout=timeout + 5)
        o = r.stdout.decode().strip().split("\n")[0]
    except Exception: o = "unknown"
    finally: os.unlink(f.name)
    STATS["cvc5_time"] += time.time() - t0
    return o

def _model(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            try: out[d.name()] = v.as_long() if not z3.is_bool(v) else int(z3.is_true(v))
            except Exception: pass
        else:
            try:
                fi = m[d]; tab = {}
                for e in fi.as_list()[:-1]:
                    tab[tuple(x.as_long() for x in e[:-1])] = e[-1].as_long()
                out[d.name()] = (tab, fi.else_value().as_long() if fi.else_value() is not None else 0)
            except Exception: pass
    return out

_syms = {}
def syms(t):
    r = _syms.get(t)
    if r is None:
        r = set()
        for x in T.postorder([t]):
            if x.op == "var": r.add(x.a[0])
            elif x.op == "uf" and all(T.isc(y) for y in x.a[1:]): r.add(x)
        _syms[t] = r = frozenset(r)
    return r
def relevant(fl, goal):
    S = set(syms(goal)); rest = list(fl); out = []
    if not S and T.isc(goal): return rest
    ch = True
    while ch:
        ch = False; nr = []
        for f in rest:
            s = syms(f)
            if s & S or not s:
                out.append(f)
                if not s <= S: S |= s; ch = True
            else: nr.append(f)
        rest = nr
    return out

def sat(facts, timeout=5.0):
    """is the conjunction satisfiable? True/False/None"""
    if facts.false: return False
    s = z3.Solver(); s.set("timeout", int(timeout * 1000))
    for f in facts.list + facts.hyps: s.add(to_z3(f))
    for f in div_axioms(facts.list): s.add(to_z3(f))
    r = s.check()
    STATS["queries"] += 1
    return True if r == z3.sat else False if r == z3.unsat else None

# ------------------------------------------------------------------ proving
def prove(facts, goal, timeout=None, depth=0):
    """returns (True, backend, None) or (False, 'unknown'|'cex', info)"""
    if goal is TRUE: STATS["syntactic"] += 1; return True, "syntactic", None
    if facts.false: return True, "contradiction", None
    if goal.op == "and" and goal.w == 1:
        b = "syntactic"
        for g in goal.a:
            r = prove(facts, g, timeout, depth + 1)
            if not r[0]: return r
            b = r[1] if b == "syntactic" else b
        return True, b, None
    v = facts.cheap(goal)
    if v is True:
        STATS["interval"] += 1; return True, "interval", None
    g = facts.simp(goal)
    if g is TRUE:
        STATS["rewrite"] += 1; return True, "rewrite", None
    if g is not goal and g.op == "and" and g.w == 1: return prove(facts, g, timeout, depth + 1)
    # congruence
    if g.op == "eq" and depth < 40:
        a, b = g.a
        if a.op == b.op == "uf" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            ok = True; bk = "rewrite"
            for x, y in zip(a.a[1:], b.a[1:]):
                e = eq(x, y)
                if e is TRUE: continue
                if e is FALSE: ok = False; break
                r = prove(facts, e, timeout, depth + 1)
                if not r[0]: ok = False; break
                bk = r[1]
            if ok: return True, bk, None
        elif a.op == b.op == "concat" and [p.w for p in a.a] == [p.w for p in b.a]:
            ok = all(prove(facts, eq(x, y), timeout, depth + 1)[0] for x, y in zip(a.a, b.a))
            if ok: return True, "z3", None
    if g.op == "not" and g.a[0].op == "and" and g.w == 1 and depth < 40:
        # disjunction: assume negations of all but the last
        parts = [not_(x) for x in g.a[0].a]
        eqs = [p for p in parts if p.op == "eq"]
        if len(eqs) == 1 and len(parts) > 1:
            lia_ctx(facts); f2 = facts.copy()
            for p in parts:
                if p is not eqs[0]: f2.add(not_(p))
            return prove(f2, eqs[0], timeout, depth + 1)
    # split on one undecided ite condition
    if depth < 12 and g.op == "eq":
        c = _itecond(g)
        if c is not None:
            v = facts.cheap(c); lia_ctx(facts)
            for val in (True, False):
                if v is not None and v != val: continue
                f2 = facts.copy(); f2.add(c if val else not_(c))
                if f2.false: continue
                r = prove(f2, T.subst(g, {c: T.boolc(val)}), timeout, depth + 1)
                if not r[0]:
                    if r[1] == "cex": return r
                    return r
            return True, "z3", None
    r = check(facts, g, timeout)
    if r != "proved" and g is not goal and not depth and check(facts, goal, timeout) == "proved": r = "proved"      # the unsimplified goal may relate to more facts
    if r == "proved": return True, "z3", None
    if depth and inconsistent(facts): return True, "contradiction", None
    if r == "unknown": return False, "unknown", T.show(g, 6)
    return False, "cex", r[1]

_inc = {}
def inconsistent(facts):
    """do the facts themselves contradict each other (a case split left an impossible case)?"""
    k = frozenset(facts.list)
    if k not in _inc:
        for f in facts.list:
            if facts.simp(f) is FALSE: _inc[k] = True; break
        else: _inc[k] = lia_check(facts, FALSE, facts.list, 2.0)
    return _inc[k]

def _itecond(g):
    """an ite condition near the top"""
    st = list(T.kids(g)); n = 0
    while st and n < 60:
        x = st.pop(0); n += 1
        if x.op == "ite": return x.a[0]
        st.extend(T.kids(x))
    return None
