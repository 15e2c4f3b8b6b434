"""Memory: objects, symbolic contents, pointers."""
import itertools
from . import terms as T
from .terms import const, eq, ite, not_, and_, ult, ule, mask, concat, ext, TRUE, FALSE

W = 64
def c64(v): return const(v, 64)

class Ptr:
    """obj: Obj / None (null or integer-valued pointer) / ('fn', name)"""
    __slots__ = ("obj", "off")
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return "&%s+%s" % (self.obj, self.off)
class PIte:
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return "(%s?%r:%r)" % (self.c, self.a, self.b)
NULL = Ptr(None, c64(0))

class Obj:
    __slots__ = ("name", "size", "kind", "ro", "tag")
    _n = itertools.count(1)
    def __init__(self, name, size, kind, ro=False):
        self.name = "%s#%d" % (name, next(Obj._n)); self.size = size if isinstance(size, T.T) else c64(size); self.kind = kind; self.ro = ro; self.tag = None
    def __repr__(self): return self.name

# ------------------------------------------------------------------ byte functions
class Arr:
    """immutable total function 64-bit offset -> byte"""
    def get(self, i, dec): raise NotImplementedError
    def word(self, i, n, dec):
        return None
class AUF(Arr):
    def __init__(self, name): self.name = name
    def get(self, i, dec): return T.uf(self.name, 8, i)
_fr = itertools.count(1)
def AHavoc(hint="hv"): return AUF("%s!%d" % (hint, next(_fr)))
class AConst(Arr):
    def __init__(self, v): self.v = v
    def get(self, i, dec): return self.v
class ABytes(Arr):
    _n = itertools.count(1)
    def __init__(self, data): self.data = data; self.tb = None
    def get(self, i, dec):
        if T.isc(i):
            k = T.cval(i)
            return const(self.data[k], 8) if k < len(self.data) else const(0, 8)
        if self.tb is None:
            self.tb = T.table("gbytes%d" % next(ABytes._n), list(self.data), 8)
            self.words = {}
        return T.tbl(self.tb, i)
    def word(self, i, n, dec):
        if T.isc(i): return None
        al = align_of(i)
        if al % n == 0 and len(self.data) % n == 0:
            if self.tb is None: self.get(T.var("dummy", 64), dec)
            if n not in self.words:
                vals = [int.from_bytes(self.data[k:k + n], "little") for k in range(0, len(self.data), n)]
                self.words[n] = T.table(self.tb + "w%d" % n, vals, 8 * n)
            return T.tbl(self.words[n], idx_shrink(T.lshrc(i, n.bit_length() - 1)))
        return None
class AWords(Arr):
    """little-endian array of words; f(word index term) -> word term of 8*n bits"""
    def __init__(self, f, n): self.f = f; self.n = n
    def get(self, i, dec):
        k = self.n.bit_length() - 1
        w = self.f(T.lshrc(i, k))
        if T.isc(i):
            b = T.cval(i) % self.n
            return ext(8 * b + 7, 8 * b, w)
        lo = T.trunc(i, k) if k else None
        r = ext(7, 0, w)
        for b in range(1, self.n):
            r = ite(eq(lo, const(b, k)), ext(8 * b + 7, 8 * b, w), r)
        return r
    def word(self, i, n, dec):
        if n == self.n and align_of(i) % n == 0: return self.f(T.lshrc(i, n.bit_length() - 1))
        return None
class ALam(Arr):
    def __init__(self, f, name=""): self.f = f; self.name = name
    def get(self, i, dec): return self.f(i)
class AStore(Arr):
    def __init__(self, base, idx, n, val): self.base = base; self.idx = idx; self.n = n; self.val = val
    def get(self, i, dec):
        d = T.sub(i, self.idx)
        r = None
        for b in range(self.n):
            c = eq(d, c64(b))
            v = dec(c)
            if v is False: continue
            x = ext(8 * b + 7, 8 * b, self.val)
            if v is True: return x
            if r is None: r = self.base.get(i, dec)
            r = ite(c, x, r)
        return self.base.get(i, dec) if r is None else r
    def word(self, i, n, dec):
        if n == self.n:
            d = T.sub(i, self.idx); c = eq(d, c64(0)); v = dec(c)
            if v is True: return self.val
            if align_of(d) % n == 0 or v is False:
                w = self.base.word(i, n, dec)
                if w is None: w = read_bytes(self.base, i, n, dec)
                if v is False and align_of(d) % n == 0: return w
                if v is None: return ite(c, self.val, w)
        return None
class ACopy(Arr):
    """base overwritten on [dst, dst+len) by src at srcoff"""
    def __init__(self, base, dst, ln, src, soff):
        # the copied range lies in an object (an obligation of the copy), so dst+ln does not wrap
        self.base = base; self.dst = dst; self.ln = ln; self.src = src; self.soff = soff; self.end = T.add(dst, ln)
    def get(self, i, dec):
        d = T.sub(i, self.dst)
        c1 = ule(self.dst, i); v = dec(c1)
        if v is False: return self.base.get(i, dec)
        c2 = ult(i, self.end); v2 = dec(c2)
        if v2 is False: return self.base.get(i, dec)
        c = and_(TRUE if v else c1, TRUE if v2 else c2)
        v = dec(c)
        if v is True: return self.src.get(T.add(self.soff, d), dec)
        if v is False: return self.base.get(i, dec)
        return ite(c, self.src.get(T.add(self.soff, d), dec), self.base.get(i, dec))
class ACells(Arr):
    """snapshot: cells over base (only integer cells)"""
    def __init__(self, base, cells): self.base = base; self.cells = cells; self.keys = sorted(cells); self._runs = None
    def get(self, i, dec):
        if T.isc(i):
            v = cell_byte(self.cells, T.cval(i))
            return v if v is not None else self.base.get(i, dec)
        r = None
        for lo, hi, nm, off in self.runs():
            c1 = ule(c64(lo), i); v1 = dec(c1)
            if v1 is False: continue
            c2 = ult(i, c64(hi)); v2 = dec(c2)
            if v2 is False: continue
            c = and_(TRUE if v1 else c1, TRUE if v2 else c2)
            x = T.uf(nm, 8, T.add(off, T.sub(i, c64(lo))))
            if dec(c) is True: return x
            if r is None: r = []
            r.append((c, x))
        for o in self.rest:
            n, v = self.cells[o]
            if not isinstance(v, T.T): continue
            for b in range(n):
                c = eq(i, c64(o + b))
                d = dec(c)
                if d is False: continue
                x = ext(8 * b + 7, 8 * b, v) if v.w > 8 else v
                if d is True: return x
                if r is None: r = []
                r.append((c, x))
        y = self.base.get(i, dec)
        for c, x in reversed(r or []): y = ite(c, x, y)
        return y
    def runs(self):
        """maximal stretches of bytes that are consecutive elements of one ghost sequence"""
        if self._runs is None:
            bs = []
            for o in self.keys:
                n, v = self.cells[o]
                if isinstance(v, T.T):
                    for b in range(n): bs.append((o + b, ext(8 * b + 7, 8 * b, v) if v.w > 8 else v, o))
            rs = []; k = 0; used = set()
            while k < len(bs):
                o, v, _ = bs[k]; e = k + 1
                if v.op == "uf" and len(v.a) == 2 and v.a[1].w == 64:
                    while e < len(bs) and bs[e][0] == o + (e - k) and bs[e][1].op == "uf" and len(bs[e][1].a) == 2 and bs[e][1].a[0] == v.a[0] and T.add(v.a[1], c64(e - k)) is bs[e][1].a[1]: e += 1
                if e - k >= 8:
                    rs.append((o, o + e - k, v.a[0], v.a[1])); used.update(x[0] for x in bs[k:e])
                else: e = k + 1
                k = e
            self._runs = rs
            self.rest = [o for o in self.keys if not all((o + b) in used for b in range(self.cells[o][0]))]
        return self._runs
    def word(self, i, n, dec):
        if n == 1 or T.isc(i) or align_of(i) % n: return None
        r = []
        for o in self.keys:
            m, v = self.cells[o]
            if not isinstance(v, T.T) or m != n or o % n: return None
            c = eq(i, c64(o)); d = dec(c)
            if d is False: continue
            if d is True: return v
            r.append((c, v))
        y = self.base.word(i, n, dec)
        if y is None: y = read_bytes(self.base, i, n, dec)
        for c, x in reversed(r): y = ite(c, x, y)
        return y
class AIte(Arr):
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def get(self, i, dec):
        v = dec(self.c)
        if v is True: return self.a.get(i, dec)
        if v is False: return self.b.get(i, dec)
        return ite(self.c, self.a.get(i, dec), self.b.get(i, dec))
class AShift(Arr):
    def __init__(self, src, off): self.src = src; self.off = off
    def get(self, i, dec): return self.src.get(T.add(i, self.off), dec)

def cell_byte(cells, k):
    for o in range(k, max(-1, k - 16), -1):
        c = cells.get(o)
        if c is not None:
            n, v = c
            if o + n > k and isinstance(v, T.T):
                b = k - o
                return ext(8 * b + 7, 8 * b, v) if v.w > 8 else v
            return None
    return None
def read_bytes(arr, i, n, dec):
    return concat(*[arr.get(T.add(i, c64(b)), dec) for b in range(n - 1, -1, -1)])
def align_of(i):
    """largest power of two (<=4096) known to divide the term"""
    op = i.op
    if op == "const":
        v = i.a[0]
        return 4096 if v == 0 else min(4096, v & -v)
    if op == "add":
        al = align_of(const(i.a[0], i.w))
        for k, t in i.a[1]: al = min(al, (k & -k) * align_of(t))
        return min(al, 4096)
    if op == "concat":
        al = 1
        for p in reversed(i.a):
            if T.isc(p) and p.a[0] == 0: al <<= p.w
            else: al *= align_of(p); break
        return min(al, 4096)
    if op == "ite": return min(align_of(i.a[1]), align_of(i.a[2]))
    return 1
def idx_shrink(i):
    if i.op == "concat" and T.isc(i.a[0]) and T.cval(i.a[0]) == 0 and len(i.a) == 2: return i.a[1]
    return i

class MemError(Exception): pass

class Content:
    __slots__ = ("cells", "base", "owner")
    def __init__(self, base, cells=None, owner=None): self.base = base; self.cells = {} if cells is None else cells; self.owner = owner
    def clone(self, owner): return Content(self.base, dict(self.cells), owner)
    def snapshot(self):
        if not self.cells: return self.base
        return ACells(self.base, dict(self.cells))
    # ---- reads
    def read(self, off, n, dec, bnd):
        """off: term; returns value (T of 8n bits, or pointer/double cell)"""
        if T.isc(off):
            k = T.cval(off)
            c = self.cells.get(k)
            if c is not None and c[0] == n: return c[1]
            if c is None and not any((k + b) in self.cells for b in range(n)) and cell_cover(self.cells, k) is None:
                w = self.base.word(off, n, dec)
                if w is not None: return w
            c = cell_cover(self.cells, k)
            if c is not None and c[0] + c[1][0] >= k + n and isinstance(c[1][1], T.T):
                b = k - c[0]
                return ext(8 * (b + n) - 1, 8 * b, c[1][1])
            parts = []
            for b in range(n - 1, -1, -1):
                v = cell_byte(self.cells, k + b)
                if v is None:
                    cc = cell_cover(self.cells, k + b)
                    if cc is not None: raise MemError("partial read of a pointer cell")
                    v = self.base.get(c64(k + b), dec)
                parts.append(v)
            return concat(*parts)
        lo, hi = bnd(off)
        near = {}
        for o, (m, v) in self.cells.items():
            if o <= hi + n - 1 and o + m > lo:
                if not isinstance(v, T.T): raise MemError("symbolic read may overlap a pointer")
                near[o] = (m, v)
        a = ACells(self.base, near) if near else self.base
        w = a.word(off, n, dec)
        if w is not None: return w
        return read_bytes(a, off, n, dec) if n > 1 else a.get(off, dec)
    # ---- writes (caller owns)
    def _clear(self, k, n):
        cells = self.cells
        c = cell_cover(cells, k)
        lst = []
        if c is not None and c[0] < k: lst.append(c)
        for o in (range(k, k + n) if n <= 4 * len(cells) + 16 else [x for x in cells if k <= x < k + n]):
            x = cells.get(o)
            if x is not None: lst.append((o, x))
        for o, (m, v) in lst:
            del cells[o]
            if isinstance(v, T.T):
                if o < k: cells[o] = (k - o, ext(8 * (k - o) - 1, 0, v))
                if o + m > k + n:
                    b = k + n - o
                    cells[k + n] = (m - b, ext(8 * m - 1, 8 * b, v))
            elif o < k or o + m > k + n: pass     # a pointer partly overwritten is lost (unreadable)
    def write(self, off, n, val, bnd):
        if T.isc(off):
            k = T.cval(off)
            c = self.cells.get(k)
            if c is None or c[0] != n: self._clear(k, n)
            self.cells[k] = (n, val); return
        if not isinstance(val, T.T): raise MemError("pointer stored at a symbolic offset")
        lo, hi = bnd(off)
        self.flush(lo, hi + n)
        self.base = AStore(self.base, off, n, val)
    def flush(self, lo, hi):
        """move every cell intersecting [lo,hi) into base"""
        mv = {}
        for o in list(self.cells):
            m, v = self.cells[o]
            if o < hi and o + m > lo:
                if isinstance(v, T.T): mv[o] = (m, v)
                else: raise MemError("symbolic write may overlap a pointer")
                del self.cells[o]
        if mv: self.base = ACells(self.base, mv)
    def copyin(self, off, ln, src, soff, dec, bnd, LIM=1024, top=None):
        """src: Content snapshot-able"""
        if T.isc(ln) and T.isc(off):
            k, n = T.cval(off), T.cval(ln)
            if n == 0: return
            if T.isc(soff) and n <= 4096:
                s = T.cval(soff)
                new = []
                covered = 0
                b = 0
                have = {o: c for o, c in src.cells.items() if o + c[0] > s and o < s + n}
                if have or n <= LIM:
                    pos = s
                    ok = True
                    if n > LIM and sum(c[0] for c in have.values()) < n - LIM: ok = False
                    if ok:
                        while pos < s + n:
                            c = src.cells.get(pos)
                            if c is not None and pos + c[0] <= s + n:
                                new.append((pos - s, c[0], c[1])); pos += c[0]; continue
                            v = cell_byte(src.cells, pos)
                            if v is None:
                                if cell_cover(src.cells, pos) is not None: raise MemError("partial copy of a pointer cell")
                                for wn in (8, 4):
                                    if isinstance(src.base, AWords) and src.base.n == wn and pos % wn == 0 and pos + wn <= s + n and not any((pos + q) in src.cells for q in range(wn)):
                                        v = src.base.word(c64(pos), wn, dec); new.append((pos - s, wn, v)); pos += wn; break
                                else:
                                    v = src.base.get(c64(pos), dec); new.append((pos - s, 1, v)); pos += 1
                                continue
                            new.append((pos - s, 1, v)); pos += 1
                        self._clear(k, n)
                        for o, m, v in new: self.cells[k + o] = (m, v)
                        return
            elif n <= 64:
                sn = src.snapshot()
                vs = [sn.get(T.add(soff, c64(b)), dec) for b in range(n)]
                self._clear(k, n)
                for b, v in enumerate(vs): self.cells[k + b] = (1, v)
                return
        lo, _ = bnd(off); l2, h2 = bnd(T.add(off, ln)); _, hl = bnd(ln)
        hi = min(h2, bnd(off)[1] + hl) if h2 >= lo else bnd(off)[1] + hl
        if top is not None: hi = min(hi, top)
        sn = src.snapshot()
        self.flush(lo, hi)
        self.base = ACopy(self.base, off, ln, sn, soff)
    def fill(self, off, ln, val, bnd, LIM=1024, top=None):
        if T.isc(off) and T.isc(ln) and T.cval(ln) <= LIM:
            k, n = T.cval(off), T.cval(ln)
            self._clear(k, n)
            for b in range(n): self.cells[k + b] = (1, val)
            return
        lo, _ = bnd(off); hi = bnd(off)[1] + bnd(ln)[1]
        _, h2 = bnd(T.add(off, ln))
        if h2 >= lo: hi = min(hi, max(h2, lo))
        if top is not None: hi = min(hi, top)
        if T.isc(off) and T.isc(ln):
            self._clear(T.cval(off), T.cval(ln))
        else: self.flush(lo, hi)
        self.base = ACopy(self.base, off, ln, AConst(val), c64(0))

def cell_cover(cells, k):
    for o in range(k, max(-1, k - 16), -1):
        c = cells.get(o)
        if c is not None: return (o, c) if o + c[0] > k else None
    return None

class Dbl:
    """symbolic double: expression tree, interpreted only by the floating-point lemma in exec"""
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __repr__(self): return "dbl%r" % (self.e,)
