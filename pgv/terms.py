"""Hash-consed bit-vector terms with an eager, semantics-preserving canonicaliser.

Width-1 terms are the booleans.  Every constructor returns a term that is equal, for all
valuations, to the operation it is named after (SMT-LIB bit-vector semantics; udiv/urem by zero
are guarded by obligations before they are built)."""
import itertools

class T:
    __slots__ = ("op", "w", "a", "id", "hi", "lo", "z3", "_h")
    def __repr__(self):
        return show(self, 6)

_tab = {}
_ids = itertools.count(1)
MASK = [(1 << i) - 1 for i in range(0, 2049)]
def mask(w):
    return MASK[w] if w <= 2048 else (1 << w) - 1

def _mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.w = w; t.a = a; t.id = next(_ids); t.z3 = None
        t.lo, t.hi = _range(op, w, a)
        _tab[k] = t
    return t

def _range(op, w, a):
    m = mask(w)
    if op == "const": return a[0], a[0]
    if op == "concat":
        lo = hi = 0
        for x in a:
            lo = (lo << x.w) | x.lo; hi = (hi << x.w) | x.hi
        return lo, hi
    if op == "ext":
        h, l, x = a
        if x.hi <= mask(h + 1): return x.lo >> l, x.hi >> l
        return 0, m
    if op == "ite":
        return min(a[1].lo, a[2].lo), max(a[1].hi, a[2].hi)
    if op == "add":
        c, ts = a
        lo = hi = c
        for k, t in ts:
            if k <= m >> 1 or w == 1: lo += k * t.lo; hi += k * t.hi
            else:
                k2 = k - (m + 1); lo += k2 * t.hi; hi += k2 * t.lo
        if 0 <= lo and hi <= m: return lo, hi
        if c and lo - (m + 1) >= 0 and hi - (m + 1) <= m: return lo - m - 1, hi - m - 1
        return 0, m
    if op == "xor":
        c, ms = a
        hi = c
        for mon in ms:
            u = m
            for t in mon: u = min(u, t.hi)
            hi |= mask(u.bit_length())
        return 0, min(m, mask(hi.bit_length()))
    if op == "and" and w > 1:
        return 0, min(x.hi for x in a)
    if op == "mul":
        lo = hi = 1
        for x in a: lo *= x.lo; hi *= x.hi
        if hi <= m: return lo, hi
        return 0, m
    if op == "udiv":
        x, y = a
        if y.lo > 0: return x.lo // y.hi, x.hi // y.lo
        return 0, m
    if op == "urem":
        x, y = a
        if y.lo > 0: return 0, min(x.hi, y.hi - 1)
        return 0, x.hi if y.lo > 0 else m
    if op == "lshr":
        return 0, a[0].hi
    if op == "tbl":
        tb = TABLES[a[0]]
        return tb[2], tb[3]
    return 0, m

# ------------------------------------------------------------------ leaves
def const(v, w):
    return _mk("const", w, (v & mask(w),))
TRUE = const(1, 1)
FALSE = const(0, 1)
def boolc(b): return TRUE if b else FALSE
def var(name, w): return _mk("var", w, (name,))
_fresh = itertools.count(1)
def fresh(name, w): return var("%s!%d" % (name, next(_fresh)), w)
def uf(name, w, *args): return _mk("uf", w, (name,) + args)
def isc(t): return t.op == "const"
def cval(t): return t.a[0]

TABLES = {}          # name -> (values, width, lo, hi)
_tabn = {}
def table(name, vals, w):
    """register the values; tables with the same values share their name"""
    if name not in TABLES: TABLES[name] = (tuple(vals), w, min(0, *vals), max(vals))
    return name
def _canon(vals, w, nb):
    """name of the table of 2^nb entries that agrees with vals (entries beyond vals are 0)"""
    v = tuple(vals[:1 << nb]) + (0,) * ((1 << nb) - len(vals))
    k = (v, w); n = _tabn.get(k)
    if n is None:
        n = _tabn[k] = "tab%d" % len(_tabn); TABLES[n] = (v, w, min(v), max(v))
    return n
_canons = {}
def tbl(name, idx):
    vals, w, _, _ = TABLES[name]
    if isc(idx): return const(vals[cval(idx)], w) if cval(idx) < len(vals) else const(0, w)
    if idx.op == "ite" and isc(idx.a[1]) and isc(idx.a[2]):
        return ite(idx.a[0], tbl(name, idx.a[1]), tbl(name, idx.a[2]))
    nb = max(1, idx.hi.bit_length())
    if nb <= 13:
        if nb < idx.w: idx = ext(nb - 1, 0, idx)
        if isc(idx) or idx.op == "ite" and isc(idx.a[1]) and isc(idx.a[2]): return tbl(name, idx)
        k = (name, nb); c = _canons.get(k)
        if c is None: c = _canons[k] = _canon(vals, w, nb)
        name = c
        vals = TABLES[name][0]
        if TABLES[name][2] == TABLES[name][3]: return const(vals[0], w)
    return _mk("tbl", w, (name, idx))

# ------------------------------------------------------------------ concat / extract
def concat(*parts):
    out = []
    st = list(parts); st.reverse()
    while st:
        p = st.pop()
        if p.w == 0: continue
        if p.op == "concat":
            st.extend(reversed(p.a)); continue
        if out:
            q = out[-1]
            if q.op == "const" and p.op == "const":
                out[-1] = const((q.a[0] << p.w) | p.a[0], q.w + p.w); continue
            if q.op == "ext" and p.op == "ext" and q.a[2] is p.a[2] and q.a[1] == p.a[0] + 1:
                n = ext(q.a[0], p.a[1], p.a[2])
                if n.op == "concat": out.pop(); st.extend(reversed(n.a))
                else: out[-1] = n
                continue
            if q.op == "ite" and p.op == "ite" and q.a[0] is p.a[0]:
                out.pop()
                st.append(ite(q.a[0], concat(q.a[1], p.a[1]), concat(q.a[2], p.a[2])))
                continue
        out.append(p)
    if len(out) == 1: return out[0]
    w = 0
    for x in out: w += x.w
    return _mk("concat", w, tuple(out))

def ext(h, l, x):
    if l == 0 and h == x.w - 1: return x
    w = h - l + 1
    op = x.op
    if op == "const": return const(x.a[0] >> l, w)
    if op == "ext": return ext(h + x.a[1], l + x.a[1], x.a[2])
    if op == "concat":
        parts = []
        pos = x.w
        for p in x.a:
            ph = pos - 1; pl = pos - p.w; pos = pl
            if pl > h: continue
            if ph < l: break
            parts.append(ext(min(h, ph) - pl, max(l, pl) - pl, p))
        return concat(*parts)
    if op == "ite":
        return ite(x.a[0], ext(h, l, x.a[1]), ext(h, l, x.a[2]))
    if op == "sext":
        y = x.a[0]
        if h < y.w: return ext(h, l, y)
        if l >= y.w:
            s = ext(y.w - 1, y.w - 1, y)
            return s if w == 1 else _mk("sext", w, (s,))
    if x.hi < (1 << l): return const(0, w)
    if op == "add":
        c, ts = x.a
        if l == 0:
            m = mask(w)
            if any(t.op == "concat" or not k & m or not ((k & -k) << tz(t)) & m for k, t in ts):
                return linear(c, [(k & m, ext(h, 0, t)) for k, t in ts if k & m and ((k & -k) << tz(t)) & m], w)
        if l > 0:
            m = mask(l)
            if not c & m and all(not k & m for k, _ in ts):
                nw = x.w - l
                r = linear(c >> l, [(k >> l, ext(nw - 1, 0, t)) for k, t in ts], nw)
                return ext(h - l, 0, r)
    if op == "and" and w == 1 and x.w == 1: return x
    if op == "tbl" and l > 0 or op == "tbl" and h < x.w - 1:
        nm = "%s[%d:%d]" % (x.a[0], h, l)
        if nm not in TABLES:
            table(nm, [(v >> l) & mask(w) for v in TABLES[x.a[0]][0]], w)
        return tbl(nm, x.a[1])
    if h < x.w - 1 and x.hi <= mask(h + 1) and l > 0:
        pass
    return _mk("ext", w, (h, l, x))

def tz(t):
    """number of low bits known to be zero"""
    if t.op == "const": return (t.a[0] & -t.a[0]).bit_length() - 1 if t.a[0] else t.w
    if t.op == "concat":
        n = 0
        for p in reversed(t.a):
            z = tz(p); n += z
            if z < p.w: break
        return n
    if t.op == "add":
        c, ts = t.a
        n = (c & -c).bit_length() - 1 if c else t.w
        for k, x in ts: n = min(n, (k & -k).bit_length() - 1 + tz(x))
        return min(n, t.w)
    return 0

def zext(x, w):
    if w == x.w: return x
    return concat(const(0, w - x.w), x)
def trunc(x, w): return ext(w - 1, 0, x)
def sext(x, w):
    if w == x.w: return x
    if isc(x):
        v = x.a[0]
        if v >> (x.w - 1): v |= mask(w) ^ mask(x.w)
        return const(v, w)
    if x.hi < (1 << (x.w - 1)): return zext(x, w)
    if x.op == "ite": return ite(x.a[0], sext(x.a[1], w), sext(x.a[2], w))
    if x.op == "sext": x = x.a[0]
    return _mk("sext", w, (x,))

# ------------------------------------------------------------------ arithmetic
def _addin(d, k, t, w):
    """add k*t into d; returns constant contribution"""
    m = mask(w)
    k &= m
    if not k: return 0
    op = t.op
    if op == "const": return k * t.a[0]
    if op == "add":
        c = k * t.a[0]
        for k2, t2 in t.a[1]:
            kk = (d.get(t2, 0) + k * k2) & m
            if kk: d[t2] = kk
            else: d.pop(t2, None)
        return c
    if op == "concat":
        last = t.a[-1]
        if last.op == "const" and last.a[0] == 0 and len(t.a) == 2:
            hi = t.a[0]
            kk = last.w
            if hi.op == "ext" and hi.a[1] == 0 and hi.a[2].w == w and hi.a[0] == w - kk - 1:
                return _addin(d, k << kk, hi.a[2], w)
            if w >= 32: return _addin(d, k << kk, zext(hi, w), w)
        elif last.op == "const" and last.a[0] and t.a[0].op != "const":
            c = last.a[0]
            return _addin(d, k, concat(*t.a[:-1], const(0, last.w)), w) + k * c
        if w >= 32 and len(t.a) <= 5:
            nc = [p for p in t.a if p.op != "const"]
            if len(nc) == 1 and t.a[0].op == "const" and t.a[0].a[0] == 0 and last.op == "const":
                pos = 0
                for p in reversed(t.a):
                    if p is nc[0]: break
                    pos += p.w
                c = 0; q = 0
                for p in reversed(t.a):
                    if p.op == "const": c |= p.a[0] << q
                    q += p.w
                if pos: return _addin(d, k << pos, zext(nc[0], w), w) + k * c
            elif len(nc) >= 2 and w >= 64:
                bs = [p.a[2] if p.op == "ext" else p for p in nc]
                if len(set(bs)) == len(bs):
                    pos = 0; c = 0
                    for p in reversed(t.a):
                        if p.op == "const": c += k * (p.a[0] << pos)
                        else: c += _addin(d, k << pos, zext(p, w), w)
                        pos += p.w
                    return c
    if op == "xor" and t.a[0] == m and len(t.a[1]) == 1 and len(t.a[1][0]) == 1:
        return _addin(d, -k, t.a[1][0][0], w) - k       # ~x = -x-1
    kk = (d.get(t, 0) + k) & m
    if kk: d[t] = kk
    else: d.pop(t, None)
    return 0

def linear(c, kts, w):
    d = {}
    for k, t in kts:
        c += _addin(d, k, t, w)
    c &= mask(w)
    if not d: return const(c, w)
    if len(d) == 1:
        (t, k), = d.items()
        if k == 1 and c == 0: return t
        if c == 0 and k & (k - 1) == 0:
            return shlc(t, k.bit_length() - 1)
        if k == mask(w) and c == mask(w):
            return bnot(t)
    else:
        # disjoint concats: add == or
        if c & (c - 1) == 0 or True:
            r = _disjoint(c, d, w)
            if r is not None: return r
    return _mk("add", w, (c, tuple(sorted(((k, t) for t, k in d.items()), key=_ky))))
def _ky(p): return p[1].id

def _disjoint(c, d, w):
    """sum of pieces with provably disjoint set bits -> concat"""
    if len(d) > 8: return None
    segs = []
    tot = c
    for t, k in d.items():
        if k != 1:
            if k & (k - 1): return None
            t = shlc(t, k.bit_length() - 1)
        if t.op != "concat": return None
        zm = _maybe_bits(t)
        if tot & zm: return None
        tot |= zm
        segs.append(t)
    r = const(c, w)
    for t in segs: r = _mergedisj(r, t)
    return r

def _maybe_bits(t):
    """mask of bits that may be 1, by segments"""
    if t.op == "const": return t.a[0]
    if t.op == "concat":
        r = 0
        for p in t.a:
            r = (r << p.w) | (p.a[0] if p.op == "const" else mask(p.w))
        return r
    return mask(min(t.w, t.hi.bit_length()))

def _cuts(t):
    if t.op == "concat":
        s = []; pos = t.w
        for p in t.a:
            pos -= p.w
            s.append(pos)
        return s
    return [0]

def _mergedisj(x, y):
    """x|y for operands that are bitwise disjoint segment-wise"""
    cuts = sorted(set(_cuts(x)) | set(_cuts(y)) | {0}, reverse=True)
    out = []; top = x.w
    for c in cuts:
        if c == top: continue
        a = ext(top - 1, c, x); b = ext(top - 1, c, y)
        if isc(a) and not a.a[0]: out.append(b)
        elif isc(b) and not b.a[0]: out.append(a)
        elif isc(a) and isc(b): out.append(const(a.a[0] | b.a[0], a.w))
        else:
            # a const piece mixed with a term piece: split at the constant's runs
            if isc(a): a, b = b, a
            out.append(bor_runs(a, b))
        top = c
    return concat(*out)

def _runs(v, w):
    """list of (hi, lo, bit) runs of constant v"""
    out = []; h = w - 1
    while h >= 0:
        b = (v >> h) & 1
        l = h
        while l > 0 and ((v >> (l - 1)) & 1) == b: l -= 1
        out.append((h, l, b)); h = l - 1
    return out

def bor_runs(t, c):
    return concat(*[const(mask(h - l + 1), h - l + 1) if b else ext(h, l, t) for h, l, b in _runs(c.a[0], t.w)])

def add(*ts):
    w = ts[0].w
    if w == 1 and False: pass
    return linear(0, [(1, t) for t in ts], w)
def sub(a, b):
    if a is b: return const(0, a.w)
    return linear(0, [(1, a), (-1, b)], a.w)
def neg(a): return linear(0, [(-1, a)], a.w)
def mul(a, b):
    if isc(a): a, b = b, a
    if isc(b): return linear(0, [(b.a[0], a)], a.w)
    if a.op == "ite" and isc(a.a[1]) and isc(a.a[2]): return ite(a.a[0], mul(a.a[1], b), mul(a.a[2], b))
    if b.op == "ite" and isc(b.a[1]) and isc(b.a[2]): return ite(b.a[0], mul(a, b.a[1]), mul(a, b.a[2]))
    if a.op == "add": return linear(0, [(1, mul(const(a.a[0], a.w), b))] + [(1, linear(0, [(k, mul(t, b))], a.w)) for k, t in a.a[1]], a.w)
    if b.op == "add": return mul(b, a)
    xs = []
    for t in (a, b):
        if t.op == "mul": xs += t.a
        else: xs.append(t)
    for i, t in enumerate(xs):      # y * (x udiv y) = x - (x urem y), for every y (also 0)
        if t.op == "udiv" and t.a[1] in xs:
            x, y = t.a; rest = xs[:i] + xs[i + 1:]; rest.remove(y); r = sub(x, urem(x, y))
            for f in rest: r = mul(r, f)
            return r
    return _mk("mul", a.w, tuple(sorted(xs, key=lambda t: t.id)))

def shlc(x, k):
    if k == 0: return x
    if k >= x.w: return const(0, x.w)
    return concat(ext(x.w - k - 1, 0, x), const(0, k))
def lshrc(x, k):
    if k == 0: return x
    if k >= x.w: return const(0, x.w)
    return concat(const(0, k), ext(x.w - 1, k, x))
def ashrc(x, k):
    if k == 0: return x
    k = min(k, x.w - 1)
    return sext(ext(x.w - 1, k, x), x.w)
def shl(x, y):
    if isc(y): return shlc(x, y.a[0])
    if isc(x) and x.a[0] == 0: return x
    if y.op == "ite": return ite(y.a[0], shl(x, y.a[1]), shl(x, y.a[2]))
    return _mk("shl", x.w, (x, y))
def lshr(x, y):
    if isc(y): return lshrc(x, y.a[0])
    if isc(x) and x.a[0] == 0: return x
    if y.op == "ite": return ite(y.a[0], lshr(x, y.a[1]), lshr(x, y.a[2]))
    return _mk("lshr", x.w, (x, y))
def ashr(x, y):
    if isc(y): return ashrc(x, y.a[0])
    if x.hi < (1 << (x.w - 1)): return lshr(x, y)
    return _mk("ashr", x.w, (x, y))
def _pow2(v): return v and v & (v - 1) == 0
def udiv(x, y):
    if isc(y):
        v = y.a[0]
        if v == 1: return x
        if _pow2(v): return lshrc(x, v.bit_length() - 1)
        if isc(x) and v: return const(x.a[0] // v, x.w)
        if v and x.hi < v: return const(0, x.w)
    if x.op == "ite" and isc(x.a[1]) and isc(x.a[2]): return ite(x.a[0], udiv(x.a[1], y), udiv(x.a[2], y))
    if x.op == "concat" and x.a[0].op == "const" and x.a[0].a[0] == 0 and isc(y):
        n = x.w - x.a[0].w
        return zext(udiv(ext(n - 1, 0, x), const(y.a[0], n)), x.w) if y.a[0] <= mask(n) else const(0, x.w)
    return _mk("udiv", x.w, (x, y))
def urem(x, y):
    if isc(y):
        v = y.a[0]
        if v == 1: return const(0, x.w)
        if _pow2(v): return concat(const(0, x.w - v.bit_length() + 1), ext(v.bit_length() - 2, 0, x))
        if isc(x) and v: return const(x.a[0] % v, x.w)
        if v and x.hi < v: return x
    if x.op == "ite" and isc(x.a[1]) and isc(x.a[2]): return ite(x.a[0], urem(x.a[1], y), urem(x.a[2], y))
    if x.op == "concat" and x.a[0].op == "const" and x.a[0].a[0] == 0 and isc(y):
        n = x.w - x.a[0].w
        return zext(urem(ext(n - 1, 0, x), const(y.a[0], n)), x.w) if y.a[0] <= mask(n) else x
    return _mk("urem", x.w, (x, y))
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
def sdiv(x, y):
    if isc(x) and isc(y) and y.a[0]:
        a, b = sgn(x.a[0], x.w), sgn(y.a[0], y.w)
        q = abs(a) // abs(b)
        return const(q if (a < 0) == (b < 0) else -q, x.w)
    h = 1 << (x.w - 1)
    if x.hi < h and y.hi < h: return udiv(x, y)
    return _mk("sdiv", x.w, (x, y))
def srem(x, y):
    if isc(x) and isc(y) and y.a[0]:
        a, b = sgn(x.a[0], x.w), sgn(y.a[0], y.w)
        r = abs(a) % abs(b)
        return const(-r if a < 0 else r, x.w)
    h = 1 << (x.w - 1)
    if x.hi < h and y.hi < h: return urem(x, y)
    return _mk("srem", x.w, (x, y))

# ------------------------------------------------------------------ bitwise (ANF polynomials)
# xor node: a = (cmask, ((atom,...),...)) : cmask ^ XOR_i AND(atoms_i)
def _poly(t):
    if t.op == "xor": return t.a[0], t.a[1]
    if t.op == "const": return t.a[0], ()
    if t.op == "and": return 0, (t.a,)
    return 0, ((t,),)
def _monkey(m): return tuple(x.id for x in m)
def _fromdict(c, mons, w):
    if not mons: return const(c, w)
    mons = sorted(mons, key=_monkey)
    if c == 0 and len(mons) == 1:
        m = mons[0]
        if len(m) == 1: return m[0]
        return _mk("and", w, m)
    return _mk("xor", w, (c, tuple(mons)))

def _split_pieces(x, y):
    """common segmentation boundaries of two words, including runs of constants (limited)"""
    cuts = set(_cuts(x)) | set(_cuts(y))
    for t in (x, y):
        if t.op == "const":
            r = _runs(t.a[0], t.w)
            cuts |= {l for _, l, _ in r}
        elif t.op == "concat":
            pos = t.w
            for p in t.a:
                pos -= p.w
                if p.op == "const":
                    cuts |= {pos + l for _, l, _ in _runs(p.a[0], p.w)}
    cuts.add(0)
    cuts = sorted(cuts, reverse=True)
    top = x.w
    out = []
    for c in cuts:
        if c == top: continue
        out.append((ext(top - 1, c, x), ext(top - 1, c, y)))
        top = c
    return out

def bxor(x, y):
    if x is y: return const(0, x.w)
    if isc(x): x, y = y, x
    w = x.w
    if isc(y) and y.a[0] == 0: return x
    if w == 1: return bxor1(x, y)
    if x.op == "ite" and isc(y) and (isc(x.a[1]) or isc(x.a[2])): return ite(x.a[0], bxor(x.a[1], y), bxor(x.a[2], y))
    if x.op == "concat" or y.op == "concat":
        if _hasconst(x) or _hasconst(y):
            ps = _split_pieces(x, y) if not isc(y) else _cpieces(x, y)
            if all(isc(a) and (isc(b) or a.a[0] == 0) or isc(b) and b.a[0] == 0 for a, b in ps) or \
               (isc(y) and x.op == "concat" and _hasconst(x)):
                return concat(*[const(a.a[0] ^ b.a[0], a.w) if isc(a) and isc(b) else
                                (b if isc(a) and a.a[0] == 0 else a if isc(b) and b.a[0] == 0 else _bx(a, b)) for a, b in ps])
    return _bx(x, y)

def _cpieces(x, c):
    out = []; pos = x.w
    for p in x.a:
        pos -= p.w
        out.append((p, ext(pos + p.w - 1, pos, c)))
    return out

def _hasconst(t):
    return t.op == "const" or t.op == "concat" and any(p.op == "const" for p in t.a)

def _bx(x, y):
    w = x.w
    c1, m1 = _poly(x); c2, m2 = _poly(y)
    s = set(m1)
    for m in m2:
        if m in s: s.discard(m)
        else: s.add(m)
    return _fromdict(c1 ^ c2, s, w)

def bnot(x):
    if x.w == 1: return not_(x)
    return bxor(x, const(mask(x.w), x.w))

LIM = 6
def band(x, y):
    if x is y: return x
    w = x.w
    if w == 1: return and_(x, y)
    if isc(x): x, y = y, x
    if isc(y):
        v = y.a[0]
        if v == 0: return y
        if v == mask(w): return x
        if x.op == "ite" and (isc(x.a[1]) or isc(x.a[2])): return ite(x.a[0], band(x.a[1], y), band(x.a[2], y))
        return concat(*[ext(h, l, x) if b else const(0, h - l + 1) for h, l, b in _runs(v, w)])
    if _hasconst(x) or _hasconst(y):
        r = []
        for a, b in _split_pieces(x, y):
            if isc(a): a, b = b, a
            if isc(b):
                if isc(a): r.append(const(a.a[0] & b.a[0], a.w))
                else: r.append(b if b.a[0] == 0 else a if b.a[0] == mask(b.w) else band(a, b))
            else: r.append(band(a, b))
        return concat(*r)
    c1, m1 = _poly(x); c2, m2 = _poly(y)
    M = mask(w)
    if c1 not in (0, M):
        m1 = None
    if c2 not in (0, M):
        m2 = None
    if m1 is None:
        c1, m1 = 0, ((x,),)
    if m2 is None:
        c2, m2 = 0, ((y,),)
    # (c1^P1)(c2^P2) = c1c2 ^ c1 P2 ^ c2 P1 ^ P1 P2
    s = set()
    def tog(m):
        if m in s: s.discard(m)
        else: s.add(m)
    if c1:
        for m in m2: tog(m)
    if c2:
        for m in m1: tog(m)
    if len(m1) * len(m2) <= LIM:
        for a in m1:
            for b in m2:
                tog(tuple(sorted(set(a) | set(b), key=lambda t: t.id)))
    else:
        p1 = _fromdict(0, m1, w); p2 = _fromdict(0, m2, w)
        q1 = p1.a if p1.op == "and" else (p1,)
        q2 = p2.a if p2.op == "and" else (p2,)
        tog(tuple(sorted(set(q1) | set(q2), key=lambda t: t.id)))
    return _fromdict(c1 & c2, s, w)

def bor(x, y):
    if x is y: return x
    w = x.w
    if w == 1: return or_(x, y)
    if isc(x): x, y = y, x
    if isc(y):
        v = y.a[0]
        if v == 0: return x
        if v == mask(w): return y
        if x.op == "ite" and (isc(x.a[1]) or isc(x.a[2])): return ite(x.a[0], bor(x.a[1], y), bor(x.a[2], y))
        return bor_runs(x, y)
    if _hasconst(x) or _hasconst(y):
        ps = _split_pieces(x, y)
        if any(isc(a) or isc(b) for a, b in ps):
            r = []
            simple = True
            for a, b in ps:
                if isc(a): a, b = b, a
                if isc(b):
                    if isc(a): r.append(const(a.a[0] | b.a[0], a.w))
                    else: r.append(a if b.a[0] == 0 else b)
                else: r.append(bor(a, b)); simple = False
            if simple: return concat(*r)
    if x.op == "ite" and y.op == "ite" and x.a[0] is y.a[0]:
        return ite(x.a[0], bor(x.a[1], y.a[1]), bor(x.a[2], y.a[2]))
    return _bx(_bx(x, y), band(x, y)) if True else None

# ------------------------------------------------------------------ booleans
def not_(x):
    if x.op == "const": return FALSE if x.a[0] else TRUE
    if x.op == "not": return x.a[0]
    return _mk("not", 1, (x,))
def and_(*xs):
    s = {}
    for x in xs:
        if x.op == "const":
            if not x.a[0]: return FALSE
            continue
        if x.op == "and":
            for y in x.a: s[y] = 1
        else: s[x] = 1
    for x in s:
        if x.op == "not" and x.a[0] in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return _mk("and", 1, tuple(sorted(s, key=lambda t: t.id)))
def or_(*xs): return not_(and_(*[not_(x) for x in xs]))
def implies(a, b): return or_(not_(a), b)
def bxor1(x, y):
    if isc(x): x, y = y, x
    if isc(y): return not_(x) if y.a[0] else x
    n = 0
    if x.op == "not": x = x.a[0]; n ^= 1
    if y.op == "not": y = y.a[0]; n ^= 1
    if x is y: return boolc(n)
    if x.id > y.id: x, y = y, x
    r = _mk("xor1", 1, (x, y))
    return not_(r) if n else r

def ite(c, a, b):
    if c.op == "const": return a if c.a[0] else b
    if a is b: return a
    if c.op == "not": c, a, b = c.a[0], b, a
    if a.w == 1:
        if isc(a): return or_(c, b) if a.a[0] else and_(not_(c), b)
        if isc(b): return or_(not_(c), a) if b.a[0] else and_(c, a)
    if a.op == "ite" and a.a[0] is c: a = a.a[1]
    if b.op == "ite" and b.a[0] is c: b = b.a[2]
    if a is b: return a
    if b.op == "ite" and b.a[1] is a:            # c?a:(d?a:e)
        return ite(or_(c, b.a[0]), a, b.a[2])
    return _mk("ite", a.w, (c, a, b))

def eq(a, b):
    if a is b: return TRUE
    if isc(a): a, b = b, a
    w = a.w
    if isc(b):
        if isc(a): return boolc(a.a[0] == b.a[0])
        v = b.a[0]
        if v < a.lo or v > a.hi: return FALSE
        if w == 1: return a if v else not_(a)
        if a.op == "concat":
            pos = w; rs = []
            for p in a.a:
                pos -= p.w
                rs.append(eq(p, const(v >> pos, p.w)))
                if rs[-1] is FALSE: return FALSE
            return and_(*rs)
        if a.op == "ite":
            e1 = eq(a.a[1], b); e2 = eq(a.a[2], b)
            if isc(e1) or isc(e2): return ite(a.a[0], e1, e2)
        if a.op == "add":
            c, ts = a.a
            if c:
                return eq(linear(0, ts, w), const(v - c, w))
            if w >= 32 and ts[0][0] & 1 == 0:
                z = min((k & -k).bit_length() - 1 for k, t in ts)
                if z:
                    if v & mask(z): return FALSE
                    return eq(linear(0, [(k >> z, trunc(t, w - z)) for k, t in ts], w - z), const(v >> z, w - z))
            k, t = ts[0]
            if k == mask(w) and len(ts) == 1:
                return eq(t, const(-v, w))
            if k > mask(w) >> 1:
                return _mk("eq", 1, (linear(0, [(-k2, t2) for k2, t2 in ts], w), const(-v, w)))
        if a.op == "xor" and a.a[0]:
            return eq(_mk("xor", w, (0, a.a[1])) if not (len(a.a[1]) == 1) else _fromdict(0, a.a[1], w), const(v ^ a.a[0], w))
        if a.op == "sext":
            x = a.a[0]
            lowv = v & mask(x.w)
            return eq(x, const(lowv, x.w)) if cval(sext(const(lowv, x.w), w)) == v else FALSE
        return _mk("eq", 1, (a, b))
    if a.hi < b.lo or b.hi < a.lo: return FALSE
    if w == 1: return not_(bxor1(a, b))
    if a.op == "concat" and b.op == "concat":
        ca, cb = set(_cuts(a)), set(_cuts(b))
        cm = sorted(ca & cb, reverse=True)
        if len(cm) > 1:
            top = w; rs = []
            for c in cm:
                rs.append(eq(ext(top - 1, c, a), ext(top - 1, c, b))); top = c
            return and_(*rs)
    if a.op == "ite" and (a.a[1] is b or a.a[2] is b):
        return or_(a.a[0], eq(a.a[2], b)) if a.a[1] is b else or_(not_(a.a[0]), eq(a.a[1], b))
    if b.op == "ite" and (b.a[1] is a or b.a[2] is a): return eq(b, a)
    if a.op == "add" or b.op == "add":
        d = sub(a, b)
        if isc(d): return boolc(d.a[0] == 0)
        if d.op == "add":
            # canonical: single-variable side
            c, ts = d.a
            return eq(linear(0, ts, w), const(-c, w))
        return eq(d, const(0, w))
    if a.id > b.id: a, b = b, a
    return _mk("eq", 1, (a, b))

def ne(a, b): return not_(eq(a, b))
def ult(a, b):
    if a is b: return FALSE
    if a.hi < b.lo: return TRUE
    if a.lo >= b.hi: return FALSE
    w = a.w
    if w == 1: return and_(not_(a), b)
    # common leading zeros
    za = w - a.hi.bit_length(); zb = w - b.hi.bit_length()
    z = min(za, zb)
    if z > 0 and a.op in ("concat", "const") and b.op in ("concat", "const"):
        na, nb = ext(w - z - 1, 0, a), ext(w - z - 1, 0, b)
        return ult(na, nb)
    if isc(b) and b.a[0] == 1: return eq(a, const(0, w))
    if isc(a) and a.a[0] == 0: return ne(b, a)
    ca, cb = _nwc(a), _nwc(b)
    if ca and cb:
        c = min(ca, cb)
        return ult(linear(-c, [(1, a)], w), linear(-c, [(1, b)], w))
    if a.op == "ite" and isc(a.a[1]) and isc(a.a[2]): return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    if b.op == "ite" and isc(b.a[1]) and isc(b.a[2]): return ite(b.a[0], ult(a, b.a[1]), ult(a, b.a[2]))
    return _mk("ult", 1, (a, b))
def _nwc(t):
    """constant part of a sum that cannot wrap (0 if none)"""
    if t.op == "const": return t.a[0]
    if t.op == "add" and t.a[0]:
        h = t.a[0]; m = mask(t.w)
        for k, x in t.a[1]:
            h += k * x.hi
            if h > m: return 0
        return t.a[0]
    return 0
def ule(a, b): return not_(ult(b, a))
def ugt(a, b): return ult(b, a)
def uge(a, b): return not_(ult(a, b))
def slt(a, b):
    if a is b: return FALSE
    w = a.w
    if isc(a) and isc(b): return boolc(sgn(a.a[0], w) < sgn(b.a[0], w))
    h = 1 << (w - 1)
    if a.hi < h and b.hi < h: return ult(a, b)
    if a.lo >= h and b.lo >= h: return ult(a, b)
    if a.hi < h and b.lo >= h: return FALSE
    if a.lo >= h and b.hi < h: return TRUE
    if a.op == "sext" and b.op == "sext" and a.a[0].w == b.a[0].w: return slt(a.a[0], b.a[0])
    if a.op == "ite" and isc(a.a[1]) and isc(a.a[2]): return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
    return _mk("slt", 1, (a, b))
def sle(a, b): return not_(slt(b, a))

# ------------------------------------------------------------------ traversal, substitution, evaluation
def kids(t):
    op = t.op
    if op in ("const", "var"): return ()
    if op == "ext": return (t.a[2],)
    if op == "add": return tuple(x for _, x in t.a[1])
    if op == "xor": return tuple(x for m in t.a[1] for x in m)
    if op in ("uf", "tbl"): return t.a[1:]
    return t.a

def postorder(roots, seen=None):
    out = []; seen = set() if seen is None else seen
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t); continue
        if t in seen: continue
        seen.add(t)
        st.append((t, True))
        for k in kids(t):
            if k not in seen: st.append((k, False))
    return out

def rebuild(t, k):
    """rebuild node t with new kids list k"""
    op, a, w = t.op, t.a, t.w
    if op in ("const", "var"): return t
    if op == "ext": return ext(a[0], a[1], k[0])
    if op == "add": return linear(a[0], [(c, x) for (c, _), x in zip(a[1], k)], w)
    if op == "xor":
        r = const(a[0], w); i = 0
        for m in a[1]:
            p = k[i]; i += 1
            for _ in m[1:]:
                p = band(p, k[i]); i += 1
            r = bxor(r, p)
        return r
    if op == "and":
        if w == 1: return and_(*k)
        p = k[0]
        for x in k[1:]: p = band(p, x)
        return p
    if op == "uf": return uf(a[0], w, *k)
    if op == "tbl": return tbl(a[0], k[0])
    if op == "concat": return concat(*k)
    if op == "mul":
        p = k[0]
        for x in k[1:]: p = mul(p, x)
        return p
    return _CONS[op](w, *k)
_CONS = {
    "ite": lambda w, c, a, b: ite(c, a, b), "eq": lambda w, a, b: eq(a, b), "ult": lambda w, a, b: ult(a, b),
    "slt": lambda w, a, b: slt(a, b), "not": lambda w, a: not_(a), "xor1": lambda w, a, b: bxor1(a, b),
    "shl": lambda w, a, b: shl(a, b), "lshr": lambda w, a, b: lshr(a, b), "ashr": lambda w, a, b: ashr(a, b),
    "udiv": lambda w, a, b: udiv(a, b), "urem": lambda w, a, b: urem(a, b), "sdiv": lambda w, a, b: sdiv(a, b),
    "srem": lambda w, a, b: srem(a, b), "sext": lambda w, a: sext(a, w),
}
def subst(t, m, memo=None):
    """simultaneous substitution of terms (keys: any terms)"""
    if memo is None: memo = {}
    if t in m: return m[t]
    if t in memo: return memo[t]
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x in memo: continue
        if x in m: memo[x] = m[x]; continue
        ks = kids(x)
        if done:
            nk = [memo[k] for k in ks]
            memo[x] = x if all(p is q for p, q in zip(nk, ks)) else rebuild(x, nk)
        elif not ks: memo[x] = x
        else:
            st.append((x, True))
            for k in ks:
                if k not in memo: st.append((k, False))
    return memo[t]

def _h64(*xs):
    h = 0xcbf29ce484222325
    for x in xs:
        if isinstance(x, str):
            for c in x.encode(): h = ((h ^ c) * 0x100000001b3) & MASK[64]
        else:
            while True:
                h = ((h ^ (x & 0xffff)) * 0x100000001b3) & MASK[64]
                h ^= h >> 29
                x >>= 16
                if not x: break
    h = (h * 0xff51afd7ed558ccd) & MASK[64]
    h ^= h >> 33
    return h

class Env:
    """valuation: vars dict name->int, ufs dict name->callable(*ints) ; missing ones are pseudo-random"""
    def __init__(self, vars=None, ufs=None, seed=0):
        self.vars = vars or {}; self.ufs = ufs or {}; self.seed = seed; self.memo = {}
    def var(self, name, w):
        v = self.vars.get(name)
        if v is None:
            v = 0
            for i in range(0, w, 64): v |= _h64(name, self.seed, i) << i
            v &= mask(w)
            self.vars[name] = v
        return v
    def uf(self, name, w, args):
        f = self.ufs.get(name)
        if f is not None:
            r = f(*args)
            if r is not None: return r & mask(w)
        v = 0
        for i in range(0, w, 64): v |= _h64(name, self.seed, i, *args) << i
        return v & mask(w)
    def ev(self, t):
        memo = self.memo
        if t in memo: return memo[t]
        st = [t]
        while st:
            x = st[-1]
            if x in memo: st.pop(); continue
            op = x.op
            if op == "ite":
                c = x.a[0]
                if c not in memo: st.append(c); continue
                y = x.a[1] if memo[c] else x.a[2]
                if y not in memo: st.append(y); continue
                memo[x] = memo[y]; st.pop(); continue
            need = [k for k in kids(x) if k not in memo]
            if need: st.extend(need); continue
            memo[x] = self._ev1(x, memo); st.pop()
        return memo[t]
    def _ev1(self, x, memo):
        op, a, w = x.op, x.a, x.w
        if op == "const": return a[0]
        if op == "var":
            d = NAMES.get(x)
            if d is not None: return self.ev(d)
            return self.var(a[0], w)
        if op == "ext": return (memo[a[2]] >> a[1]) & mask(w)
        if op == "concat":
            r = 0
            for p in a: r = (r << p.w) | memo[p]
            return r
        if op == "add":
            r = a[0]
            for k, t in a[1]: r += k * memo[t]
            return r & mask(w)
        if op == "xor":
            r = a[0]
            for m in a[1]:
                p = memo[m[0]]
                for t in m[1:]: p &= memo[t]
                r ^= p
            return r
        if op == "and":
            p = memo[a[0]]
            for t in a[1:]: p &= memo[t]
            return p
        if op == "not": return 1 - memo[a[0]]
        if op == "xor1": return memo[a[0]] ^ memo[a[1]]
        if op == "eq": return int(memo[a[0]] == memo[a[1]])
        if op == "ult": return int(memo[a[0]] < memo[a[1]])
        if op == "slt": return int(sgn(memo[a[0]], a[0].w) < sgn(memo[a[1]], a[1].w))
        if op == "uf": return self.uf(a[0], w, [memo[k] for k in a[1:]])
        if op == "tbl":
            tb = TABLES[a[0]][0]; i = memo[a[1]]
            return tb[i] if i < len(tb) else 0
        if op == "mul":
            p = 1
            for t in a: p *= memo[t]
            return p & mask(w)
        if op == "sext":
            return sgn(memo[a[0]], a[0].w) & mask(w)
        v = [memo[k] for k in a]
        if op == "shl": return (v[0] << v[1]) & mask(w) if v[1] < w else 0
        if op == "lshr": return v[0] >> v[1] if v[1] < w else 0
        if op == "ashr": return (sgn(v[0], w) >> min(v[1], w - 1)) & mask(w)
        if op == "udiv": return v[0] // v[1] if v[1] else mask(w)
        if op == "urem": return v[0] % v[1] if v[1] else v[0]
        if op == "sdiv":
            if not v[1]: return mask(w)
            return cval(sdiv(const(v[0], w), const(v[1], w)))
        if op == "srem":
            if not v[1]: return v[0]
            return cval(srem(const(v[0], w), const(v[1], w)))
        raise ValueError(op)

# ------------------------------------------------------------------ naming of big xor sums
# A definitional abbreviation: var -> term.  Replacing a term by its name is sound (the name is equal to it by
# definition) and keeps iterated permutations from exploding.  The same term always gets the same name.
NAMES = {}
_named = {}
def _big(t):
    if t.op == "xor": return any(len(m) > 1 or m[0].op == "concat" and _big(m[0]) for m in t.a[1])
    if t.op == "concat": return any(_big(p) for p in t.a if p.op in ("xor", "and"))
    return t.op == "and" and t.w > 1
def named(t):
    if t.w < 32 or t.op not in ("xor", "concat", "and") or not _big(t): return t
    c = 0
    if t.op == "xor" and t.a[0]:
        c = t.a[0]; t = _fromdict(0, t.a[1], t.w)
    v = _named.get(t)
    if v is None:
        v = fresh("nm", t.w); _named[t] = v; NAMES[v] = t
    return bxor(v, const(c, t.w)) if c else v

def show(t, depth=8):
    op, a = t.op, t.a
    if op == "const": return "%d" % a[0] if a[0] < 10 else "0x%x" % a[0]
    if op == "var": return a[0]
    if depth == 0: return "..."
    d = depth - 1
    if op == "ext": return "%s[%d:%d]" % (show(a[2], d), a[0], a[1])
    if op == "add":
        s = []
        M = mask(t.w)
        for k, x in a[1]:
            if k > M >> 1: k -= M + 1
            s.append((("%d*" % k) if k != 1 else "") + show(x, d))
        c = a[0] - M - 1 if a[0] > M >> 1 else a[0]
        return "(" + " + ".join(s) + (" + %d" % c if c else "") + ")"
    if op == "xor":
        s = [" & ".join(show(x, d) for x in m) for m in a[1]]
        if a[0]: s.append("0x%x" % a[0])
        return "(" + " ^ ".join(s) + ")"
    if op in ("uf", "tbl"): return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if op == "ite": return "(%s ? %s : %s)" % tuple(show(x, d) for x in a)
    if op == "eq": return "(%s == %s)" % (show(a[0], d), show(a[1], d))
    if op == "ult": return "(%s <u %s)" % (show(a[0], d), show(a[1], d))
    if op == "not": return "!" + show(a[0], d)
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))
