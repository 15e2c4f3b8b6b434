"""Assumed contracts of the C++ runtime and of std::basic_string<char / unsigned char>, std::to_string, operator new/delete.

A string object holds [pointer to data @0, length @8, capacity @16]; its data is a heap object of exactly length+1 bytes, the last
one zero, so that any access past the terminator is outside the object.  Every modifying member moves the data to a new object
(pointers obtained before a modification are invalid after it).  Allocation is assumed to succeed."""
import re, subprocess
from . import terms as T, builtins as B
from .terms import const, eq, ne, ite, not_, and_, or_, ult, ule, mask, TRUE, FALSE
from .mem import *
from .exec import Throw, Unsupported, Fork

NPOS = c64(mask(64))
_dem = {}
def demangle(names):
    todo = [n for n in names if n not in _dem]
    if todo:
        r = subprocess.run(["c++filt"], input="\n".join(todo), capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(todo, r): _dem[n] = norm(d)
def norm(d):
    for c, k in (("char", "S"), ("unsigned char", "U")):
        for tr in ("std::char_traits<%s>" % c, "__gnu_cxx::char_traits<%s>" % c):
            d = d.replace("std::__cxx11::basic_string<%s, %s, std::allocator<%s> >" % (c, tr, c), k)
    return d.replace("[abi:cxx11]", "")
def dem(n):
    if n not in _dem: demangle([n])
    return _dem[n]
def load_names(prog):
    ns = set()
    for m in prog.mods:
        ns.update(m.funcs); ns.update(m.decls); ns.update(m.aliases)
    demangle(sorted(n for n in ns if n.startswith("_Z")))
def find(prog, demangled, prefer="C1"):
    """the function with this demangled name (complete-object constructors preferred)"""
    c = []
    for m in prog.mods:
        for n in list(m.funcs) + list(m.aliases):
            if n.startswith("_Z") and dem(n) == demangled:
                f = prog.func(m.aliases.get(n, n), m)
                if f is not None: c.append((0 if prefer in n else 1, n, f))
    return min(c, key=lambda x: x[:2])[2] if c else None

# ------------------------------------------------------------------ strings
def P(o, off=0): return Ptr(o, c64(off))
def add(p, k): return Ptr(p.obj, T.add(p.off, c64(k) if isinstance(k, int) else k))
def setstr(ex, s, p, o, n):
    p = ex.norm_ptr(s, p)
    q = ex.access(s, p, c64(32), "string object", True)
    if q is None: raise Unsupported("string object")
    w = s.wcontent(q.obj)
    w.write(q.off, 8, Ptr(o, c64(0)), s.bnd); w.write(T.add(q.off, c64(8)), 8, n, s.bnd); w.write(T.add(q.off, c64(16)), 8, n, s.bnd); w.write(T.add(q.off, c64(24)), 8, c64(0), s.bnd)
I64 = ("i", 64); PT = ("ptr",)
def sptr(ex, s, p):
    d = ex.norm_ptr(s, ex.load(s, ex.prog.mods[0], PT, p))
    if not isinstance(d, Ptr) or d.obj is None or isinstance(d.obj, tuple):
        ex.oblige(s, "memory", FALSE, "use of a string object that is not alive"); raise Unsupported("string object is not alive")
    return d
def slen(ex, s, p): return ex.load(s, ex.prog.mods[0], I64, add(ex.norm_ptr(s, p), 8))
def make(ex, s, parts):
    """new data object: parts are ('p', ptr, n) | ('c', byte, n); returns (obj, length)"""
    n = T.linear(0, [(1, x[2]) for x in parts], 64)
    n = s.facts.simp(n)
    o = s.new("str", T.add(n, c64(1)), "heap")
    off = c64(0)
    for k, v, m in parts:
        if not (T.isc(m) and T.cval(m) == 0):
            if k == "p": ex.memcpy(s, Ptr(o, off), v, m)
            else: ex.memset(s, Ptr(o, off), v, m)
        off = T.add(off, m)
    ex.store(s, ex.prog.mods[0], ("i", 8), const(0, 8), Ptr(o, n))
    return o, n
def drop(s, d):
    s.dead.add(d.obj); s.mem.pop(d.obj, None)
def init(ex, s, p, parts):
    o, n = make(ex, s, parts); setstr(ex, s, p, o, n)
def assign(ex, s, p, parts):
    old = sptr(ex, s, p); o, n = make(ex, s, parts); drop(s, old); setstr(ex, s, p, o, n)
def whole(ex, s, p): return ("p", sptr(ex, s, p), slen(ex, s, p))
def cz(ex, s, p): return ("p", ex.norm_ptr(s, p), B.cstr_len(ex, s, p))
def split(ex, s, c):
    """[(state, truth)]"""
    v = ex.decide(s, c)
    if v is not None: return [(s, v)]
    t = s.clone(); s.facts.add(c); t.facts.add(not_(c))
    return [(x, b) for x, b in ((s, True), (t, False)) if not x.facts.false]
def forall(s, rng, f, last):
    lo, hi, R = rng
    g = (lambda i: and_(ult(lo, i), ult(i, hi))) if last and R is not None else (lambda i: and_(ule(lo, i), ult(i, hi)))
    s.ghost["all"] = s.ghost.get("all", ()) + ((g, f),)
def instantiate(s, terms):
    """consequences of the universal facts at the given indices"""
    for g, f in s.ghost.get("all", ()):
        for t in terms: s.facts.add(or_(not_(g(t)), f(s, t)))
def oor(): return Throw(("std::out_of_range",))

def h_erase(ex, s, a):
    """erase(pos, n): out_of_range if pos > length; removes min(n, length-pos) bytes"""
    p, pos, n = a[:3]; L = slen(ex, s, p); out = []
    for x, bad in split(ex, s, ult(L, pos)):
        if bad: out.append((x, oor())); continue
        rest = T.sub(L, pos)
        for y, le in split(ex, x, ule(n, rest)):
            m = n if le else rest
            d = sptr(ex, y, p); tail = T.add(pos, m)
            assign(ex, y, p, [("p", d, pos), ("p", add(d, tail), y.facts.simp(T.sub(L, tail)))])
            out.append((y, p))
    return out
def h_substr(ex, s, a):
    r, p, pos, n = a[:4]; L = slen(ex, s, p); out = []
    for x, bad in split(ex, s, ult(L, pos)):
        if bad: out.append((x, oor())); continue
        rest = T.sub(L, pos)
        for y, le in split(ex, x, ule(n, rest)):
            init(ex, y, r, [("p", add(sptr(ex, y, p), pos), n if le else rest)]); out.append((y, None))
    return out
def insert(get):
    def h(ex, s, a):
        p, pos = a[:2]; L = slen(ex, s, p); out = []
        for x, bad in split(ex, s, ult(L, pos)):
            if bad: out.append((x, oor())); continue
            d = sptr(ex, x, p)
            assign(ex, x, p, [("p", d, pos), get(ex, x, a), ("p", add(d, pos), x.facts.simp(T.sub(L, pos)))]); out.append((x, p))
        return out
    return h
def append(get):
    def h(ex, s, a):
        assign(ex, s, a[0], [whole(ex, s, a[0]), get(ex, s, a)]); return a[0]
    return h
def assigner(get):
    def h(ex, s, a):
        assign(ex, s, a[0], [get(ex, s, a)]); return a[0]
    return h
def ctor(get):
    def h(ex, s, a): init(ex, s, a[0], [get(ex, s, a)]); return None
    return h
def h_move(ex, s, a):
    d = sptr(ex, s, a[1]); n = slen(ex, s, a[1]); setstr(ex, s, a[0], d.obj, n); init(ex, s, a[1], []); return None
def h_moveassign(ex, s, a):
    if ex.norm_ptr(s, a[0]).obj is ex.norm_ptr(s, a[1]).obj and ex.norm_ptr(s, a[0]).off is ex.norm_ptr(s, a[1]).off: return a[0]
    drop(s, sptr(ex, s, a[0])); h_move(ex, s, a); return a[0]
def h_copyassign(ex, s, a):
    assign(ex, s, a[0], [whole(ex, s, a[1])]); return a[0]
def h_dtor(ex, s, a):
    d = sptr(ex, s, a[0]); drop(s, d)
    q = ex.norm_ptr(s, a[0]); s.wcontent(q.obj).write(q.off, 8, NULL, s.bnd); return None
def h_index(ex, s, a):
    """operator[](i): i <= length"""
    ex.oblige(s, "memory", ule(a[1], slen(ex, s, a[0])), "index within the string")
    return add(sptr(ex, s, a[0]), a[1])
def h_at(ex, s, a):
    L = slen(ex, s, a[0])
    return [(x, add(sptr(ex, x, a[0]), a[1]) if ok else oor()) for x, ok in split(ex, s, ult(a[1], L))]
def h_resize(ex, s, a):
    n = a[1]; ch = a[2] if len(a) > 2 else const(0, 8); out = []; L = slen(ex, s, a[0])
    for x, le in split(ex, s, ule(n, L)):
        if le: assign(ex, x, a[0], [("p", sptr(ex, x, a[0]), n)])
        else: assign(ex, x, a[0], [whole(ex, x, a[0]), ("c", ch, T.sub(n, L))])
        out.append((x, None))
    return out
def h_fno(last):
    """find_first_not_of / find_last_not_of (set, pos, n): index of the first / last byte not in the set, npos if none; every
    byte before (after) it is in the set - a universal fact kept in the ghost state and instantiated where the unit asks"""
    def h(ex, s, a):
        p, setp, pos, n = a[0], a[1], a[2], a[3]
        n = s.facts.simp(n)
        if not T.isc(n) or T.cval(n) > 8: raise Unsupported("set of unknown size")
        L = slen(ex, s, p); d = sptr(ex, s, p); cs = []
        for k in range(T.cval(n)):
            q = ex.access(s, add(ex.norm_ptr(s, setp), k), c64(1), "set of characters"); cs.append(s.content(q.obj).read(q.off, 1, s.dec, s.bnd))
        def inn(v): return or_(*[eq(v, c) for c in cs]) if cs else FALSE
        if last:
            if not (T.isc(pos) and T.cval(pos) == mask(64)): raise Unsupported("find_last_not_of from a position")
            lo, hi = c64(0), L
        else:
            lo, hi = pos, L
        t = s.clone(); out = []
        R = T.zext(T.fresh("found", 62), 64)
        arr = s.content(d.obj).snapshot(); base = d.off
        get = lambda x, i: arr.get(T.add(base, i), x.dec)
        s.facts.add(ule(lo, R)); s.facts.add(ult(R, hi)); s.facts.add(not_(inn(get(s, R))))
        forall(s, (R, hi, R) if last else (lo, R, R), lambda x, i: inn(get(x, i)), last)
        if not s.facts.false: out.append((s, R))
        forall(t, (lo, hi, None), lambda x, i: inn(get(x, i)), last)
        out.append((t, NPOS))
        return out
    return h
def cstr_arg(k): return lambda ex, s, a: cz(ex, s, a[k])
def bytes_arg(k): return lambda ex, s, a: ("p", ex.norm_ptr(s, a[k]), a[k + 1])
def str_arg(k): return lambda ex, s, a: whole(ex, s, a[k])
def fill_arg(k): return lambda ex, s, a: ("c", a[k + 1] if a[k + 1].w == 8 else T.trunc(a[k + 1], 8), a[k])
def chr_arg(k): return lambda ex, s, a: ("c", a[k] if a[k].w == 8 else T.trunc(a[k], 8), c64(1))
def range_arg(k):
    def g(ex, s, a):
        b, e = ex.norm_ptr(s, a[k]), ex.norm_ptr(s, a[k + 1])
        if b.obj is not e.obj: raise Unsupported("iterator range")
        return ("p", b, T.sub(e.off, b.off))
    return g
def nothing(ex, s, a): return ("c", const(0, 8), c64(0))
def sub_arg(ex, s, a):
    raise Unsupported("substring constructor")

def string_handler(name):
    """name: normalised demangled name of a member of S or U"""
    m = re.match(r"(?:.* )?([SU])::((?:operator(?:\[\]|\+=|=))|~?\w+)(<.*>)?\((.*)\)( const)?$", name)
    if not m or m.group(2).startswith("_"): return None
    K, meth, targs, ar, cst = m.groups()
    C = "char" if K == "S" else "unsigned char"
    AL = "std::allocator<%s>" % C
    ar = ar.replace(", " + AL + " const&", "").replace(AL + " const&", "")
    cp = C + " const*"; N = "unsigned long"; ref = K + " const&"; it = "__gnu_cxx::__normal_iterator<"
    if meth == "basic_string":
        if targs and "void" in targs and ar.count(",") == 1: return ctor(range_arg(1))
        return {"": ctor(nothing), ref: ctor(str_arg(1)), K + "&&": h_move, cp: ctor(cstr_arg(1)), cp + ", " + N: ctor(bytes_arg(1)), N + ", " + C: ctor(fill_arg(1))}.get(ar)
    if meth == "~basic_string": return h_dtor
    if meth in ("operator=", "assign"):
        return {ref: h_copyassign, K + "&&": h_moveassign, cp: assigner(cstr_arg(1)), cp + ", " + N: assigner(bytes_arg(1)), N + ", " + C: assigner(fill_arg(1)), C: assigner(chr_arg(1))}.get(ar)
    if meth in ("c_str", "data", "begin", "cbegin") and not ar: return lambda ex, s, a: sptr(ex, s, a[0])
    if meth in ("end", "cend") and not ar: return lambda ex, s, a: add(sptr(ex, s, a[0]), slen(ex, s, a[0]))
    if meth in ("size", "length", "capacity") and not ar: return lambda ex, s, a: slen(ex, s, a[0])
    if meth == "empty": return lambda ex, s, a: eq(slen(ex, s, a[0]), c64(0))
    if meth == "operator[]": return h_index
    if meth == "at": return h_at
    if meth == "front": return lambda ex, s, a: h_index(ex, s, [a[0], c64(0)])
    if meth == "back": return lambda ex, s, a: h_index(ex, s, [a[0], T.sub(slen(ex, s, a[0]), c64(1))])
    if meth in ("append", "operator+="):
        return {ref: append(str_arg(1)), cp: append(cstr_arg(1)), cp + ", " + N: append(bytes_arg(1)), N + ", " + C: append(fill_arg(1)), C: append(chr_arg(1))}.get(ar)
    if meth == "push_back":
        return lambda ex, s, a: append(chr_arg(1))(ex, s, a) and None
    if meth == "insert":
        return {N + ", " + cp: insert(cstr_arg(2)), N + ", " + cp + ", " + N: insert(bytes_arg(2)), N + ", " + ref: insert(str_arg(2)), N + ", " + N + ", " + C: insert(fill_arg(2))}.get(ar)
    if meth == "erase": return h_erase if ar == N + ", " + N else None
    if meth == "clear": return lambda ex, s, a: assign(ex, s, a[0], [])
    if meth == "resize": return h_resize
    if meth in ("reserve", "shrink_to_fit"): return lambda ex, s, a: None
    if meth == "substr": return h_substr
    if meth in ("find_first_not_of", "find_last_not_of"):
        base = h_fno(meth == "find_last_not_of")
        def viac(ex, s, a):
            o = s.new("chset", 1); s.wcontent(o).write(c64(0), 1, a[1], s.bnd); return base(ex, s, [a[0], P(o), a[2], c64(1)])
        def vias(ex, s, a): _, q, n = whole(ex, s, a[1]); return base(ex, s, [a[0], q, a[2], n])
        def viaz(ex, s, a): _, q, n = cz(ex, s, a[1]); return base(ex, s, [a[0], q, a[2], n])
        return {cp + ", " + N + ", " + N: base, C + ", " + N: viac, ref + ", " + N: vias, cp + ", " + N: viaz}.get(ar)
    if meth == "swap":
        def h(ex, s, a):
            d, n = sptr(ex, s, a[0]), slen(ex, s, a[0]); e, k = sptr(ex, s, a[1]), slen(ex, s, a[1])
            setstr(ex, s, a[0], e.obj, k); setstr(ex, s, a[1], d.obj, n)
        return h
    return None

def h_plus(l, r):
    def h(ex, s, a):
        init(ex, s, a[0], [l(ex, s, a), r(ex, s, a)]); return None
    return h
def free_handler(name):
    m = re.match(r"([SU]) std::operator\+<.*>\((.*)\)$", name)
    if m:
        K = m.group(1); C = "char" if K == "S" else "unsigned char"
        g = {K + " const&": str_arg, K + "&&": str_arg, C + " const*": cstr_arg, C: chr_arg}
        ps = m.group(2).split(", ")
        if len(ps) == 2 and all(p in g for p in ps): return h_plus(g[ps[0]](1), g[ps[1]](2))
    m = re.match(r"std::(?:__cxx11::)?to_string\((unsigned int|unsigned long|unsigned long long)\)$", name)
    if m: return h_to_string
    if re.match(r"std::allocator<.*>::(~)?allocator\(.*\)$", name) or re.match(r"std::allocator<.*>::(~)?allocator\(\)$", name) or re.match(r"std::__new_allocator<.*>::~?__new_allocator\(.*\)$", name): return lambda ex, s, a: None
    if re.match(r"std::(move|forward)<", name): return None
    return None

DLMAX = 20
def declen(v):
    r = const(1, 64); w = v.w
    for k in range(1, DLMAX):
        if 10 ** k <= mask(w): r = ite(ule(const(10 ** k, w), v), const(k + 1, 64), r)
    return r
def decdigit(v, k):
    """k-th decimal digit from the right, as a character"""
    return T.add(T.uf("dec%d" % v.w, 8, v, const(k, 8)), const(48, 8))
def h_to_string(ex, s, a):
    """decimal text of the number, no leading zeros; forks on its length"""
    r, v = a[0], a[1]; out = []; w = v.w
    v = s.facts.simp(v); cur = s
    for n in range(1, DLMAX + 1):
        last = 10 ** n > mask(w)
        c = TRUE if last else ult(v, const(10 ** n, w))
        nxt = None
        for x, t in split(ex, cur, c):
            if t:
                o = x.new("str", n + 1, "heap"); wc = x.wcontent(o)
                for j in range(n): wc.write(c64(j), 1, decdigit(v, n - 1 - j), x.bnd)
                wc.write(c64(n), 1, const(0, 8), x.bnd); setstr(ex, x, r, o, c64(n)); out.append((x, None))
            else: nxt = x
        if nxt is None: break
        cur = nxt
    return out

# ------------------------------------------------------------------ runtime
def h_new(ex, s, a): return P(s.new("new", a[0], "heap"))
def h_delete(ex, s, a):
    p = ex.norm_ptr(s, a[0])
    if not isinstance(p, Ptr): raise Unsupported("delete of an undetermined pointer")
    if p.obj is None:
        ex.oblige(s, "memory", eq(p.off, c64(0)), "delete of an allocated object"); return None
    ok = not isinstance(p.obj, tuple) and p.obj.kind == "heap" and p.obj not in s.dead
    ex.oblige(s, "memory", and_(TRUE if ok else FALSE, eq(p.off, c64(0))), "delete of an allocated object, once")
    if ok: drop(s, p)
    return None
def h_throw(ex, s, a): return Throw(("exc", a[0], a[1]))
def h_alloc_exc(ex, s, a): return P(s.new("exception", a[0], "heap"))
def thrower(k): return lambda ex, s, a: Throw((k,))
RT = {"_Znwm": h_new, "_Znam": h_new, "_ZdlPv": h_delete, "_ZdaPv": h_delete, "_ZdlPvm": h_delete, "_ZdaPvm": h_delete,
      "__cxa_allocate_exception": h_alloc_exc, "__cxa_throw": h_throw, "_ZSt20__throw_out_of_rangePKc": thrower("std::out_of_range"),
      "_ZSt24__throw_out_of_range_fmtPKcz": thrower("std::out_of_range"), "_ZSt28__throw_bad_array_new_lengthv": thrower("std::bad_array_new_length"),
      "_ZSt17__throw_bad_allocv": thrower("std::bad_alloc"), "_ZSt20__throw_length_errorPKc": thrower("std::length_error"), "_ZSt19__throw_logic_errorPKc": thrower("std::logic_error"),
      "_ZSt20__throw_system_errori": thrower("std::system_error"), "__cxa_atexit": lambda ex, s, a: const(0, 32)}
_cache = {}
def ovdyn(name):
    if name in RT: return RT[name]
    if not name.startswith("_Z"): return None
    if name in _cache: return _cache[name]
    d = dem(name)
    h = string_handler(d) or free_handler(d)
    if h is not None:
        def g(ex, s, a, h=h, d=d):
            ex.assumed.add("std: " + d.replace("S::", "string::").replace("U::", "basic_string<unsigned char>::")[:120]); return h(ex, s, a)
        _cache[name] = g; return g
    _cache[name] = None
    return None
