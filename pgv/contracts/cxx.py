"""The C++ classes: C05 data objects, C04 Blowfish, C01/C02 encoders, C06 one-time passwords, C07 names, C03 base encoders."""
from .common import *
from .. import loops, stl, builtins as BI
from ..builtins import AStr, nonzero

def cxxvals(header, exprs):
    """integer values of constant C++ expressions"""
    src = "#include <cstddef>\n#include \"%s\"\n" % header
    for n, e in exprs.items(): src += "extern \"C\" { extern const unsigned long v_%s; const unsigned long v_%s = (unsigned long)(%s); }\n" % (n, n, e)
    key = ("cxx", src)
    if key in common_lay: return common_lay[key]
    r = subprocess.run(["clang++", "-std=c++14", "-xc++", "-S", "-emit-llvm", "-O0", "-I" + ir.REPO + "/include", "-I" + ir.REPO + "/src", "-Wno-everything", "-", "-o", "-"], input=src.encode(), capture_output=True)
    if r.returncode: raise LayoutError(r.stderr.decode(errors="replace")[:500])
    common_lay[key] = {m.group(1): int(m.group(2)) for m in re.finditer(r"@v_(\w+) = .*constant i64 (-?\d+)", r.stdout.decode())}
    return common_lay[key]
from .common import _lay as common_lay
def csize(header, ty): return cxxvals(header, {"sz": "sizeof(%s)" % ty})["sz"]

class ABuf(Arr):
    """n bytes f(i), then one zero byte"""
    def __init__(a, f, n): a.f = f; a.n = n
    def get(a, i, dec):
        c = ult(i, a.n); v = dec(c)
        if v is True: return a.f(i)
        if v is False: return const(0, 8)
        return ite(c, a.f(i), const(0, 8))

def fn(ctx, name):
    stl.load_names(ctx.prog)
    f = stl.find(ctx.prog, name)
    if f is None: raise Unsupported("function %s not found" % name)
    return f
def executor(ctx, more=None, loopspec=None):
    stl.load_names(ctx.prog)
    ex = ctx.executor(dict(more or {}), loopspec); ex.ovdyn = stl.ovdyn
    return ex
def sub(st):
    """carry on from an outcome"""
    st.last = st.result; st.kind = None; st.result = None
    return st
def narrow(name, w=58): return T.zext(T.var(name, w), 64)
def raw(st, name, f, n):
    o = st.new(name, n, "heap", base=ALam(f), ro=True); return o
def ctext(st, name, f, n):
    """a C string of n nonzero bytes f"""
    return st.new(name, T.add(n, c64(1)), "heap", base=AStr(f, n), ro=True)
def sobj(st, name, f, n, size=32):
    """a std string object holding the n bytes f"""
    d = st.new(name + "_data", T.add(n, c64(1)), "heap", base=ABuf(f, n)); o = st.new(name, size, "heap"); w = st.wcontent(o)
    for k, v in ((0, P(d)), (8, n), (16, n), (24, c64(0))): w.write(c64(k), 8, v, st.bnd)
    return o
def holds(ctx, ex, st, p, f, n, desc):
    """the string object at p holds exactly the n bytes f(0..n-1), zero-terminated"""
    d = stl.sptr(ex, st, p); L = stl.slen(ex, st, p)
    ctx.oblige(st, eq(L, n), desc + ": length")
    j = T.zext(T.fresh("j", 62), 64); x = st.clone(); x.facts.add(ult(j, n))
    if x.facts.false: return
    stl.instantiate(x, [j])
    g = in_bounds_of(ex, x, d, j)
    ctx.oblige(x, g, desc + ": bytes lie in the object")
    ctx.oblige(x, eq(x.content(d.obj).read(T.add(d.off, j), 1, x.dec, x.bnd), f(j)), desc + ": byte j")
def in_bounds_of(ex, st, d, j): return X.in_bounds(T.add(d.off, j), c64(1), d.obj.size, st)
SD = "libpgfe::SequentialData"; SH = "libpgfe/sequential_data.hpp"; CB = "unsigned char const*"
def sd(ctx, ex, st, f, n, name="src"):
    """states in which a data object was constructed from the n bytes f: [(state, object)]"""
    src = raw(st, name + "_bytes", f, n); o = st.new(name, csize(SH, SD), "heap")
    outs = ctx.run(ex, st, fn(ctx, SD + "::SequentialData(%s, unsigned long)" % CB), [P(o), P(src), n])
    return [(sub(x), o) for x in outs]
U8 = lambda nm: (lambda i: T.uf(nm, 8, i))

# ------------------------------------------------------------------ C05
def u_ctor(form):
    def go(ctx):
        ex = executor(ctx); st = State(); n = narrow("n"); f = U8("b"); o = st.new("obj", csize(SH, SD), "heap")
        st.facts.add(ule(n, c64(1 << 57)))
        sig = None; src = None
        if form == "empty": args = []; sig = ""; n = c64(0)
        elif form == "bytes": args = [P(raw(st, "in", f, n)), n]; sig = CB + ", unsigned long"
        elif form == "cstr": f = lambda i: nonzero(T.uf("b", 8, i)); args = [P(ctext(st, "in", f, n))]; sig = "char const*"
        elif form == "string": args = [P(sobj(st, "in", f, n))]; sig = "S"
        else:
            (st, src), = sd(ctx, ex, st, f, n); args = [P(src)]; sig = {"copy": SD + " const&", "ptr": SD + " const*", "move": SD + "&&"}[form]
        for x in ctx.run(ex, st, fn(ctx, SD + "::SequentialData(%s)" % sig), [P(o)] + args):
            holds(ctx, ex, x, P(o), f, n, "object built from " + form)
            if form in ("copy", "ptr"): holds(ctx, ex, x, P(src), f, n, "the source of the copy")
            if form == "string": holds(ctx, ex, x, args[0], f, n, "the source string")
    return Unit("C05 constructor " + form, go)
def dbl(n): return T.linear(0, [(2, n)], 64)
HEXD = lambda nib: BI.hexdigit(nib)
def ov_tohex(ctx):
    """pgfe_hash_to_hex_string (U01): lower-case digits of every byte, NUL-terminated"""
    def h(ex, s, a):
        n = a[1]; src = ex.access(s, a[0], n, "input of pgfe_hash_to_hex_string"); dst = ex.access(s, a[2], T.add(dbl(n), c64(1)), "output of pgfe_hash_to_hex_string", True)
        if src is None or dst is None: return None
        sn = s.content(src.obj).snapshot(); so = src.off
        if not (T.isc(dst.off) and T.cval(dst.off) == 0): raise Unsupported("hex output inside an object")
        def f(i):
            b = sn.get(T.add(so, T.lshrc(i, 1)), s.dec)
            return ite(eq(T.trunc(i, 1), const(0, 1)), HEXD(T.ext(7, 4, b)), HEXD(T.ext(3, 0, b)))
        s.mem[dst.obj] = Content(AStr(f, dbl(n)), None, s.tok)
        return None
    return h
def u_str(form):
    def go(ctx):
        ex = executor(ctx, {"pgfe_hash_to_hex_string": ov_tohex(ctx)}); st = State(); n = narrow("n"); f = U8("b"); st.facts.add(ule(n, c64(1 << 56)))
        (st, o), = sd(ctx, ex, st, f, n); r = st.new("result", 32, "heap")
        if form == "to_str":
            h = T.var("auto_hex", 1)
            for x in ctx.run(ex, st, fn(ctx, SD + "::to_str(bool) const"), [P(r), P(o), h]): holds(ctx, ex, x, P(r), f, n, "to_str"); holds(ctx, ex, x, P(o), f, n, "source of to_str")
        elif form == "hex_str":
            g = lambda i: ite(eq(T.trunc(i, 1), const(0, 1)), HEXD(T.ext(7, 4, f(T.lshrc(i, 1)))), HEXD(T.ext(3, 0, f(T.lshrc(i, 1)))))
            for x in ctx.run(ex, st, fn(ctx, SD + "::hex_str() const"), [P(r), P(o)]): holds(ctx, ex, x, P(r), g, dbl(n), "hex_str"); holds(ctx, ex, x, P(o), f, n, "source of hex_str")
        else:
            lo = st.new("len", 8, "heap"); two = form == "to_pgfe_seq2"
            for x in ctx.run(ex, st, fn(ctx, SD + "::to_pgfe_seq(%s) const" % ("unsigned long&" if two else "")), [P(o)] + ([P(lo)] if two else [])):
                if two: ctx.oblige(x, eq(x.content(lo).read(c64(0), 8, x.dec, x.bnd), n), "reported length")
                p = ex.norm_ptr(x, x.result); j = T.zext(T.fresh("j", 62), 64); x.facts.add(ult(j, n))
                if x.facts.false: continue
                q = ex.access(x, Ptr(p.obj, T.add(p.off, j)), c64(1), "byte of the sequence")
                if q is not None: ctx.oblige(x, eq(x.content(q.obj).read(q.off, 1, x.dec, x.bnd), f(j)), "byte j of the sequence")
    return Unit("C05 " + form, go)
def trimsrc(case):
    """byte function, length, leading zeros, trailing zeros, and facts; every byte sequence is of one of the two kinds"""
    Z, M, Y = narrow("Z", 56), narrow("M", 56), narrow("Y", 56)
    if case == "zeros": return (lambda i: const(0, 8)), Z, Z, Z, []
    n = T.linear(1, [(1, Z), (1, M), (1, Y)], 64); last = T.add(Z, M)
    def f(i):
        v = T.uf("b", 8, i)
        return ite(or_(ult(i, Z), ult(last, i)), const(0, 8), ite(or_(eq(i, Z), eq(i, last)), nonzero(v), v))
    return f, n, Z, Y, []
def u_trim(meth, case):
    def go(ctx):
        ex = executor(ctx); st = State(); f, n, Z, Y, fs = trimsrc(case)
        for x in fs: st.facts.add(x)
        (st, o), = sd(ctx, ex, st, f, n); inplace = meth.endswith("_"); r = o if inplace else st.new("result", csize(SH, SD), "heap")
        L = "right" not in meth; R = "left" not in meth
        if case == "zeros": lo = c64(0); m = c64(0)
        else: lo = Z if L else c64(0); m = T.sub(T.sub(n, lo), Y if R else c64(0))
        for x in ctx.run(ex, st, fn(ctx, SD + "::%s()" % meth), [P(r), P(o)] if not inplace else [P(o)]):
            idx = [c64(0), Z, T.sub(n, c64(1)), T.sub(T.sub(n, Y), c64(1)), T.sub(n, Y), T.sub(T.sub(n, Z), Y), T.sub(T.sub(T.sub(n, Z), Y), c64(1))]
            stl.instantiate(x, idx)
            for k in [v for v in found(x)]: stl.instantiate(x, [k, T.add(k, Z)])
            if x.facts.false or infeasible(x): continue
            holds(ctx, ex, x, P(r), lambda i: f(T.add(i, lo)), m, "%s of %s" % (meth, case))
            if not inplace: holds(ctx, ex, x, P(o), f, n, "source of " + meth)
    return Unit("C05 %s %s" % (meth, case), go)
def found(st): return []
def infeasible(st): return smt.prove(st.facts, FALSE)[0]
def u_factory(form):
    def go(ctx):
        n = narrow("n"); st = State(); st.facts.add(ule(n, c64(1 << 57))); f = U8("b"); U = "libpgfe::utils::"; more = {}
        if form.startswith("hex"):
            cnt = T.zext(T.var("digits", 57), 64); g = U8("val")
            st.facts.add(ule(cnt, T.lshrc(T.add(n, c64(1)), 1)))
            def h(ex, s, a):
                """pgfe_hex_string_to_hash (U01): the bytes the digits of the text spell; at most one per two characters"""
                p = ex.norm_ptr(s, a[0]); ok = p.obj is src[0] and T.isc(p.off) and T.cval(p.off) == 0
                ctx.require(ok, "pgfe_hex_string_to_hash is given the text")
                d = ex.access(s, a[1], cnt, "output of pgfe_hex_string_to_hash", True)
                if d is None: return cnt
                s.wcontent(d.obj).copyin(d.off, cnt, Content(ALam(g)), c64(0), s.dec, s.bnd); return cnt
            more = {"pgfe_hex_string_to_hash": h}
        ex = executor(ctx, more); src = []
        if form == "bytes": name = U + "to_sequential_data(%s, unsigned long)" % CB; args = [P(raw(st, "in", f, n)), n]
        elif form in ("cstr", "hexcstr"):
            ff = lambda i: nonzero(T.uf("b", 8, i)); o = ctext(st, "in", ff, n); src.append(o); args = [P(o)]; f = ff
            name = U + ("to_sequential_data" if form == "cstr" else "sequential_data::from_hex_string") + "(char const*)"
        else:
            ff = f if form == "string" else (lambda i: nonzero(T.uf("b", 8, i))); o = sobj(st, "in", ff, n); args = [P(o)]; f = ff
            if form == "hexstring":
                d = stl.sptr(ex, st, P(o)).obj; st.mem[d] = Content(AStr(ff, n), None, st.tok); src.append(d)
            name = U + ("to_sequential_data" if form == "string" else "sequential_data::from_hex_string") + "(S&)"
        for x in ctx.run(ex, st, fn(ctx, name), args):
            p = ex.norm_ptr(x, x.result)
            if form.startswith("hex"): holds(ctx, ex, x, p, g, cnt, "data object of the text's digits")
            else: holds(ctx, ex, x, p, f, n, "data object")
    return Unit("C05 factory " + form, go)
def c05():
    us = [u_ctor(k) for k in ("empty", "bytes", "cstr", "string", "copy", "ptr", "move")]
    us += [u_str(k) for k in ("to_str", "hex_str", "to_pgfe_seq", "to_pgfe_seq2")]
    us += [u_trim(m, c) for m in ("trim", "trim_left", "trim_right", "trim_", "trim_left_", "trim_right_") for c in ("zeros", "mixed")]
    us += [u_factory(k) for k in ("bytes", "cstr", "string", "hexcstr", "hexstring")]
    return us

# ------------------------------------------------------------------ C04
from . import api
from .api import Msg, msg, seg_f, seg_str, same_msg, put_ctx, get_ctx, sid
BH = "libpgfe/fishes/blowfish.hpp"; BF = "libpgfe::Blowfish"
def pad8(n): return T.concat(T.ext(63, 3, T.add(n, c64(7))), const(0, 3))
def bfb(nm, km, dm, i): return T.uf("bf_" + nm, 8, const(km.id, 32), const(dm.id, 32), i)
def bf_overrides():
    """contracts of the C cipher (B01, B03): a context is a function of the key bytes; the output of the padded length a
    function of context and data"""
    z = csize(BH, "pgfe_blowfish_ctx")
    def init(ex, s, a):
        q = ex.access(s, a[0], c64(z), "context of pgfe_blowfish_init", True); n = s.facts.simp(a[2])
        ex.oblige(s, "pre", and_(not_(ult(n, c64(1))), ule(n, c64(56))), "the key has 1 to 56 bytes")
        r = ex.access(s, a[1], n, "key of pgfe_blowfish_init")
        if q is None or r is None: s.facts.add(FALSE); return None
        put_ctx(s, q, z, ("bf", ex.api.canon(s, msg(api.read_seg(ex, s, r, n))))); return None
    def crypt(nm):
        def h(ex, s, a):
            n = s.facts.simp(a[2]); q = ex.access(s, a[0], c64(z), "context of pgfe_blowfish_" + nm)
            r = ex.access(s, a[1], n, "input of pgfe_blowfish_" + nm); m = pad8(n)
            o = ex.access(s, a[3], m, "output of pgfe_blowfish_" + nm, True)
            if q is None or r is None or o is None: s.facts.add(FALSE); return m
            k = get_ctx(ex, s, q, z); ok = k is not None and k[0] == "bf"
            ex.oblige(s, "pre", T.boolc(ok), "pgfe_blowfish_%s is given a context made from a key" % nm)
            if not ok: s.facts.add(FALSE); return m
            d = ex.api.canon(s, msg(api.read_seg(ex, s, r, n)))
            s.wcontent(o.obj).copyin(o.off, m, Content(ALam(lambda i: bfb(nm, k[1], d, i))), c64(0), s.dec, s.bnd); return m
        return h
    return {"pgfe_blowfish_init": init, "pgfe_blowfish_encrypt": crypt("encrypt"), "pgfe_blowfish_decrypt": crypt("decrypt")}
def api_ex(ctx, more=None, loopspec=None):
    ov = dict(api.hash_overrides()); ov.update(more or {})
    ex = executor(ctx, ov, loopspec); api.Api(ex); return ex
def given(ctx, ex, st, form, name, n):
    """[(state, arguments, byte function)]: the n bytes handed over as bytes, C string, C++ string or data object"""
    f = (lambda i: nonzero(T.uf(name, 8, i))) if form == "cstr" else U8(name)
    if form == "bytes": return [(st, [P(raw(st, name, f, n)), n], f)]
    if form == "cstr": return [(st, [P(ctext(st, name, f, n))], f)]
    if form == "string": return [(st, [P(sobj(st, name, f, n))], f)]
    return [(x, [P(o)], f) for x, o in sd(ctx, ex, st, f, n, name)]
FORMS = ("bytes", "cstr", "string", "data")
def pick(ctx, names):
    for x in names:
        f = stl.find(ctx.prog, x)
        if f is not None: return f
    raise Unsupported("function %s not found" % names[0])
def argt(form): return {"bytes": (CB + ", unsigned long",), "cstr": ("char const*",), "string": ("S const&", "S&"), "data": (SD + " const&", SD + "&")}[form]
def method(ctx, cls, meth, form, pre=""): return pick(ctx, ["%s::%s(%s%s)" % (cls, meth, pre, t) for t in argt(form)])
def mfun(f, n):
    s = seg_f(f(api.PROBE), n); return msg(s)
def u_bf_ctor(form):
    def go(ctx):
        stl.load_names(ctx.prog); ex = api_ex(ctx, bf_overrides()); st = State(); n = T.zext(T.var("keylen", 6), 64); z = csize(BH, "pgfe_blowfish_ctx")
        st.facts.add(ule(c64(1), n)); st.facts.add(ule(n, c64(56))); o = st.new("obj", csize(BH, BF), "heap")
        for st, args, f in given(ctx, ex, st, form, "key", n):
            K = mfun(f, n); ex.api.expect = [K]
            for x in ctx.run(ex, st, method(ctx, BF, "Blowfish", form), [P(o)] + args):
                offs = [k for k, (w, v) in sorted(x.content(o).cells.items()) if isinstance(v, T.T) and v.op == "uf" and v.a[0] == "ctxb" and T.cval(v.a[2]) == 0]
                k = get_ctx(ex, x, P(o, offs[0]), z) if len(offs) == 1 else None
                if not ctx.require(k is not None, "the object keeps one cipher context"): continue
                for d, g in same_msg(x, k[1], K): ctx.oblige(x, g, "the context is made from exactly the key bytes (%s)" % d)
    return Unit("C04 constructor from " + form, go)
def u_bf_crypt(nm, form, which=BF):
    def go(ctx):
        ex = api_ex(ctx, bf_overrides()); st = State(); z = csize(BH, "pgfe_blowfish_ctx")
        o = st.new("obj", csize(BH, BF), "heap"); key = raw(st, "key", U8("key"), c64(8)); K = mfun(U8("key"), c64(8)); ex.api.expect = [K]
        (st,) = [sub(x) for x in ctx.run(ex, st, method(ctx, BF, "Blowfish", "bytes"), [P(o), P(key), c64(8)])]
        offs = [k for k, (w, v) in sorted(st.content(o).cells.items()) if isinstance(v, T.T) and v.op == "uf" and v.a[0] == "ctxb" and T.cval(v.a[2]) == 0]
        K = Msg((("f", T.uf("anykey", 8, api.PROBE), T.var("anylen", 64)),)); put_ctx(st, P(o, offs[0]), z, ("bf", K))
        n = narrow("n"); st.facts.add(ule(n, c64(1 << 57))); r = st.new("result", csize(SH, SD), "heap")
        for st, args, f in given(ctx, ex, st, form, "data", n):
            D = mfun(f, n); ex.api.expect = [D]
            for x in ctx.run(ex, st, method(ctx, which, nm, form), [P(r), P(o)] + args):
                holds(ctx, ex, x, P(r), lambda i: bfb(nm, K, D, i), pad8(n), "%s(%s): the C function's output" % (nm, form))
                k = get_ctx(ex, x, P(o, offs[0]), z); ctx.require(k == ("bf", K), "the object's context is unchanged")
    return Unit("C04 %s %s%s" % (nm, form, "" if which == BF else " via the base class"), go)
def c04():
    return [u_bf_ctor(k) for k in FORMS] + [u_bf_crypt(m, k) for m in ("encrypt", "decrypt") for k in FORMS]

# ------------------------------------------------------------------ C07
GH = "libpgfe/generic.hpp"
NAMES = {a: (a, ("RawSHAKE" + a[8:]) if a.startswith("raw") else a.upper()) for a in api.ALGS}
def enums(): return cxxvals(GH, {a: NAMES[a][1] for a in api.ALGS})
SIZES = {a: (api.FIXED[a], api.BLOCK[a]) for a in api.FIXED}
SIZES.update({"shake128": (32, 168), "rawshake128": (32, 168), "shake256": (64, 136), "rawshake256": (64, 136)})
USER = """#include "libpgfe/generic.hpp"
pgfe_algorithm_choice pgv_literal(const char *s, unsigned long n) { return libpgfe::operator"" _pgfe_alg(s, n); }
unsigned long pgv_digest_length(pgfe_algorithm_choice c) { return libpgfe::pgfe_digest_length.at(c); }
unsigned long pgv_block_length(pgfe_algorithm_choice c) { return libpgfe::pgfe_block_length.at(c); }
unsigned long pgv_has(pgfe_algorithm_choice c) { return libpgfe::pgfe_digest_length.count(c) + libpgfe::pgfe_block_length.count(c); }
"""
class Maps:
    """assumed contract of std::unordered_map built from an initializer list: the first entry of every key; at() throws
    std::out_of_range for any other key"""
    def __init__(m): m.tabs = {}
    def keyof(m, ex, s, name, p):
        """key at p: ('s', bytes) constant or symbolic (ptr, len); ('i', term)"""
        if name.startswith("std::unordered_map<S,"): return ("s", stl.sptr(ex, s, p), stl.slen(ex, s, p))
        return ("i", ex.load(s, ex.prog.mods[0], ("i", 32), p))
    def handler(m, name):
        d = stl.dem(name)
        if not d.startswith("std::unordered_map<"): return None
        base = d[:d.index(">::") + 3] if ">::" in d else d
        k = re.search(r">::(~?\w+)\(", d[:d.rindex(")") + 1])
        meth = re.match(r"(~?\w+)\(", d[d.rindex(">::") + 3:]) if "::unordered_map(std::initializer_list" not in d else None
        strk = d.startswith("std::unordered_map<S, pgfe_algorithm_choice,")
        if not strk and not d.startswith("std::unordered_map<pgfe_algorithm_choice, unsigned long,"): return None
        if "::unordered_map(std::initializer_list" in d: return lambda ex, s, a: m.build(ex, s, a, strk)
        if meth is None: return None
        if meth.group(1) in ("at", "operator[]"): return lambda ex, s, a: m.at(ex, s, a, strk)
        if meth.group(1) == "find": return lambda ex, s, a: m.at(ex, s, a, strk, True)
        if meth.group(1) in ("end", "cend"): return lambda ex, s, a: Ptr(None, c64(0))
        if meth.group(1) == "count": return lambda ex, s, a: m.count(ex, s, a, strk)
        if meth.group(1) == "~unordered_map": return lambda ex, s, a: None
        return None
    def build(m, ex, s, a, strk):
        o = ex.norm_ptr(s, a[0]); l = ex.norm_ptr(s, a[1]); n = s.facts.simp(a[2])
        if not T.isc(n): raise Unsupported("map of unknown size")
        esz = 40 if strk else 16; ents = []; mod = ex.prog.mods[0]
        for k in range(T.cval(n)):
            e = stl.add(l, k * esz)
            if strk:
                d, L = stl.sptr(ex, s, e), s.facts.simp(stl.slen(ex, s, e))
                if not T.isc(L): raise Unsupported("name of unknown length")
                key = tuple(s.facts.simp(s.content(d.obj).read(T.add(d.off, c64(j)), 1, s.dec, s.bnd)) for j in range(T.cval(L)))
                if not all(T.isc(x) for x in key): raise Unsupported("name of unknown bytes")
                key = tuple(T.cval(x) for x in key); v = ex.load(s, mod, ("i", 32), stl.add(e, 32)); w = 4
            else:
                key = s.facts.simp(ex.load(s, mod, ("i", 32), e)); v = ex.load(s, mod, ("i", 64), stl.add(e, 8)); w = 8
                if not T.isc(key): raise Unsupported("key unknown")
                key = T.cval(key)
            if key in dict(ents): continue
            # a node: next pointer (unspecified), key and value, cached hash
            c = s.new("map node", 16 + esz, "heap"); s.wcontent(c).write(c64(8 + (32 if strk else 8)), w, v, s.bnd); ents.append((key, c))
            if strk: stl.init(ex, s, stl.P(c, 8), [("p", d, L)])
            else: s.wcontent(c).write(c64(8), 4, const(key, 32), s.bnd)
        s.ghost["map " + o.obj.name] = tuple(ents); return None
    def ents(m, ex, s, a):
        o = ex.norm_ptr(s, a[0]); e = s.ghost.get("map " + o.obj.name)
        if e is None: ex.oblige(s, "pre", FALSE, "the table has been initialised"); raise Unsupported("table not initialised")
        return e
    def match(m, ex, s, k, key):
        if k[0] == "i": return eq(k[1], const(key, 32))
        c = s.content(k[1].obj); g = eq(k[2], c64(len(key)))
        if s.dec(g) is False: return FALSE
        return and_(g, *[eq(c.read(T.add(k[1].off, c64(j)), 1, lambda x: None, s.bnd), const(b, 8)) for j, b in enumerate(key)])
    def at(m, ex, s, a, strk, find=False):
        ents = m.ents(ex, s, a); k = m.keyof(ex, s, "std::unordered_map<S," if strk else "", ex.norm_ptr(s, a[1])); out = []; cur = s
        for key, c in ents:
            nxt = None
            for x, t in stl.split(ex, cur, m.match(ex, cur, k, key)):
                if t: out.append((x, stl.P(c, 0 if find else 40 if strk else 16)))
                else: nxt = x
            if nxt is None: return out
            cur = nxt
        return out + [(cur, Ptr(None, c64(0)) if find else stl.oor())]
    def count(m, ex, s, a, strk):
        k = m.keyof(ex, s, "std::unordered_map<S," if strk else "", ex.norm_ptr(s, a[1]))
        return ite(or_(*[m.match(ex, s, k, key) for key, c in m.ents(ex, s, a)]), c64(1), c64(0))
def tables(ctx, mod):
    """executor and the state after the translation unit's static initialisation"""
    stl.load_names(ctx.prog); ex = executor(ctx); M = Maps(); base = ex.ovdyn
    def hd(name, base=base):
        h = M.handler(name) if name.startswith("_Z") else None
        if h is not None:
            ex.assumed.add("std::unordered_map: construction from an initializer list, at, find, count, end"); return h
        return base(name)
    ex.ovdyn = hd; st = State(); outs = []
    ini = [n for n in mod.funcs if n.startswith("_GLOBAL__sub_I_")]
    for i in ini: (st,) = [sub(x) for x in ctx.run(ex, st, mod.funcs[i], [])]
    return ex, st
def lookup_spec(ctx, st, f, n, en, what):
    """goals for an outcome of a lookup of the text (f, n)"""
    def is_(nm): return and_(eq(n, c64(len(nm))), *[eq(f(c64(j)), const(ord(c), 8)) for j, c in enumerate(nm)])
    for alg, names in sorted(NAMES.items()):
        for nm in names:
            if st.kind == "ret": ctx.oblige(st, or_(not_(is_(nm)), eq(st.result, const(en[alg], 32))), "%s: %s selects %s" % (what, nm, alg))
            else: ctx.oblige(st, not_(is_(nm)), "%s: %s is not refused" % (what, nm))
    if st.kind == "ret": ctx.oblige(st, or_(*[is_(nm) for names in NAMES.values() for nm in names]), "%s: only documented names are accepted" % what)
def u_name(form):
    def go(ctx):
        en = enums()
        if form == "literal": mod = ir.add_text(ctx.prog, "user.cpp", USER)
        else: mod = next((m for m in ctx.prog.mods if m.path.endswith("core/generic.cpp")), None)
        if mod is None: raise Unsupported("generic.cpp not found")
        ex, st = tables(ctx, mod); n = narrow("n"); st.facts.add(ule(n, c64(1 << 57)))
        if form == "literal":
            # the other unit's own tables are initialised as well
            m2 = next(m for m in ctx.prog.mods if m.path.endswith("core/generic.cpp"))
            ini = [k for k in m2.funcs if k.startswith("_GLOBAL__sub_I_")]; (st,) = [sub(x) for x in ctx.run(ex, st, m2.funcs[ini[0]], [])]
            fn_ = fn(ctx, "pgv_literal(char const*, unsigned long)")
        if form == "string": f = U8("b"); args = [P(sobj(st, "text", f, n))]; fn_ = fn(ctx, "libpgfe::_algstr(S)")
        else:
            f = lambda i: nonzero(T.uf("b", 8, i)); args = [P(ctext(st, "text", f, n))]
            if form == "literal": args.append(n)
            else: fn_ = fn(ctx, "libpgfe::_algstr(char const*)")
        outs = ctx.run(ex, st, fn_, args, kinds=("ret", "throw"))
        ctx.require(any(o.kind == "throw" for o in outs), "an unknown name can be refused", "vacuity")
        for x in outs: lookup_spec(ctx, x, f, n, en, fn_.name if form != "literal" else "_pgfe_alg literal")
    return Unit("C07 name lookup " + form, go)
def u_sizes(ctx):
    en = enums(); mod = ir.add_text(ctx.prog, "user.cpp", USER); ex, st = tables(ctx, mod); c = T.var("choice", 32)
    for which, k in (("digest", 0), ("block", 1)):
        for x in ctx.run(ex, st.clone(), fn(ctx, "pgv_%s_length(pgfe_algorithm_choice)" % which), [c], kinds=("ret", "throw")):
            for alg, v in sorted(en.items()):
                g = eq(c, const(v, 32))
                if x.kind == "ret": ctx.oblige(x, or_(not_(g), eq(x.result, c64(SIZES[alg][k]))), "%s size of %s is its standard's" % (which, alg))
                else: ctx.oblige(x, not_(g), "%s size of %s is listed" % (which, alg))
    ctx.require(len(set(en.values())) == len(en), "the algorithms have distinct values")
def c07(): return [u_name(k) for k in ("string", "cstr", "literal")] + [Unit("C07 size tables", u_sizes)]

# ------------------------------------------------------------------ C01, C02
from . import hmac as Hm
HE = "libpgfe::HashEncoder"; HEH = "libpgfe/hashes/hash_encoder.hpp"; ME = "libpgfe::HMACEncoder"; MEH = "libpgfe/hmac/hmac_encoder.hpp"
ENCUSER = """#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include <new>
using namespace libpgfe;
unsigned long pgv_dsz(const AbstractHashEncoder *e) { return e->digest_size(); }
unsigned long pgv_bsz(const AbstractHashEncoder *e) { return e->block_size(); }
pgfe_algorithm_choice pgv_alg(const AbstractHashEncoder *e) { return e->algorithm(); }
const SequentialData *pgv_def(HashEncoder *e) { return e->get_digest(); }
const SequentialData *pgv_vdef(AbstractEncoder *e) { return e->get_digest(); }
void pgv_vreset(AbstractEncoder *e) { e->reset(); }
AbstractHashEncoder *pgv_ash(HashEncoder *e) { return e; }
AbstractHashEncoder *pgv_asm(HMACEncoder *e) { return e; }
AbstractEncoder *pgv_bas(AbstractHashEncoder *e) { return e; }
void pgv_vupdate(AbstractEncoder *e, const pgfe_encode_t *s, size_t n) { e->update(s, n); }
void pgv_vupdate(AbstractEncoder *e, const char *s) { e->update(s); }
void pgv_vupdate(AbstractEncoder *e, std::string &s) { e->update(s); }
void pgv_vupdate(AbstractEncoder *e, SequentialData &s) { e->update(s); }
"""
def abstates(st):
    """places of abstract contexts: [(object, offset)]"""
    return [(o, k) for o, c in list(st.mem.items()) if o not in st.dead for k, (w, v) in sorted(c.cells.items()) if isinstance(v, T.T) and v.op == "uf" and v.a[0] == "ctxb" and T.isc(v.a[2]) and T.cval(v.a[2]) == 0]
def one_ctx(ctx, ex, st, z, want, what):
    """the single abstract context of the state; None when it is not as wanted (obligations record why)"""
    ps = [p for p in abstates(st)]
    if not ctx.require(len(ps) == 1, what + ": exactly one running context"): return None
    o, k = ps[0]; key = get_ctx(ex, st, P(o, k), z)
    if not ctx.require(key is not None and key[:len(want)] == want, what + ": the context is one of the selected algorithm"): return None
    return o, k, key
def same_but(ctx, st, before, o, rng, what):
    """the object's bytes outside rng are unchanged"""
    c, base, cells = before[o]; d = st.mem[o]
    inside = lambda k: rng is not None and rng[0] <= k < rng[1]
    A = {k: v for k, v in cells.items() if not inside(k)}; B = {k: v for k, v in d.cells.items() if not inside(k)}
    ctx.require(d.base is base and A.keys() == B.keys() and all(A[k][0] == B[k][0] and X_same(A[k][1], B[k][1]) for k in A), what + ": the rest of the object is unchanged")
def anymsg(name): return Msg((("f", T.uf(name, 8, api.PROBE), T.zext(T.var(name + "len", 56), 64)),))
def hm_overrides():
    """contracts of the C HMAC functions (M01)"""
    ov = {}
    def mk(alg):
        z = Hm.hmac_size(alg); N = "pgfe_hmac_%s_" % alg
        def init(ex, s, a):
            q = ex.access(s, a[0], c64(z), "context of " + N + "init", True)
            if q is not None: api.junk_ctx(s, q, z)
        def set_key(ex, s, a):
            n = s.facts.simp(a[2]); q = ex.access(s, a[0], c64(z), "context of " + N + "set_key", True); r = ex.access(s, a[1], n, "key of " + N + "set_key")
            if q is None or r is None: s.facts.add(FALSE); return
            put_ctx(s, q, z, ("hm", alg, ex.api.canon(s, msg(api.read_seg(ex, s, r, n))), Msg()))
        def state(ex, s, a, w):
            q = ex.access(s, a[0], c64(z), "context of " + N + w, True)
            k = get_ctx(ex, s, q, z) if q is not None else None; ok = k is not None and k[:2] == ("hm", alg)
            ex.oblige(s, "pre", T.boolc(ok), "%s%s is given a keyed %s context not yet finished" % (N, w, alg))
            if not ok: s.facts.add(FALSE)
            return q, k if ok else None
        def update(ex, s, a):
            q, k = state(ex, s, a, "update"); n = s.facts.simp(a[2])
            if k is None: return
            r = ex.access(s, a[1], n, "input of " + N + "update")
            if r is None: s.facts.add(FALSE); return
            put_ctx(s, q, z, ("hm", alg, k[2], k[3] + api.read_seg(ex, s, r, n)))
        def digest(ex, s, a):
            q, k = state(ex, s, a, "digest")
            if k is None: return
            r = ex.access(s, a[1], c64(api.FIXED[alg]), "output of " + N + "digest", True)
            if r is None: s.facts.add(FALSE); return
            for j in range(api.FIXED[alg]): s.wcontent(r.obj).write(T.add(r.off, c64(j)), 1, hmb(alg, k[2], k[3], j), s.bnd)
            api.junk_ctx(s, q, z)
        ov.update({N + "init": init, N + "set_key": set_key, N + "update": update, N + "digest": digest})
    for alg in api.FIXED: mk(alg)
    return ov
def hmb(alg, k, m, j): return T.uf("hm_" + alg, 8, const(k.id, 32), const(m.id, 32), const(j, 16))
def table(g, n):
    """byte function i -> g(i) for i < n"""
    def f(i):
        if T.isc(i): return g(min(T.cval(i), n - 1))
        v = g(n - 1)
        for k in reversed(range(n - 1)): v = ite(eq(i, c64(k)), g(k), v)
        return v
    return f
def sized(ctx, ex, st, cast, o, alg, what):
    """reported algorithm, digest and block size"""
    for x in ctx.run(ex, st.clone(), fn(ctx, cast), [P(o)]):
        b = x.result
        for nm, w, v in (("pgv_dsz(libpgfe::AbstractHashEncoder const*)", 64, SIZES[alg][0]), ("pgv_bsz(libpgfe::AbstractHashEncoder const*)", 64, SIZES[alg][1]), ("pgv_alg(libpgfe::AbstractHashEncoder const*)", 32, enums()[alg])):
            for y in ctx.run(ex, sub(x.clone()), fn(ctx, nm), [b]): ctx.oblige(y, eq(y.result, const(v, w)), "%s: reported %s" % (what, nm[4:7]))
def updates(ctx, ex, st, cls, o, z, place, key, cast, what):
    """every form of update, called directly and through the base class, appends exactly the bytes given; key(m): the state for message m"""
    X = anymsg("sofar")
    for form in FORMS:
        for virt in (False, True):
            s0 = st.clone(); n = T.zext(T.var("n", 56), 64); put_ctx(s0, P(*place), z, key(X))
            for s1, args, f in given(ctx, ex, s0, form, "data", n):
                W = X + seg_f(f(api.PROBE), n); ex.api.expect = [W]; this = P(o); s2s = [s1]
                if virt:
                    (s1,) = [sub(x) for x in ctx.run(ex, s1, fn(ctx, cast), [this])]; this = ex_res(s1)
                    g = fn(ctx, "pgv_bas(libpgfe::AbstractHashEncoder*)"); (s1,) = [sub(x) for x in ctx.run(ex, s1, g, [this])]; this = ex_res(s1)
                    F = fn(ctx, "pgv_vupdate(libpgfe::AbstractEncoder*, %s)" % {"bytes": CB + ", unsigned long", "cstr": "char const*", "string": "S&", "data": SD + "&"}[form])
                else: F = method(ctx, cls, "update", form)
                before = snap(s1); w = "%s %supdate(%s)" % (what, "virtual " if virt else "", form)
                for x in ctx.run(ex, s1, F, [this] + args):
                    c = one_ctx(ctx, ex, x, z, key(X)[:-1], w)
                    if c is None: continue
                    ctx.require(c[:2] == place, w + ": the same context")
                    for d, g in same_msg(x, c[2][-1], W): ctx.oblige(x, g, "%s: the message grows by exactly the bytes given (%s)" % (w, d))
                    if o is place[0]: same_but(ctx, x, before, o, (place[1], place[1] + z), w)
                    else: same_but(ctx, x, before, o, None, w)
def ex_res(st): return st.last
def enc_base(ctx, ex, st, o, cast):
    (x,) = [sub(y) for y in ctx.run(ex, st, fn(ctx, cast), [P(o)])]; (x,) = [sub(y) for y in ctx.run(ex, x, fn(ctx, "pgv_bas(libpgfe::AbstractHashEncoder*)"), [ex_res(x)])]
    return x, ex_res(x)
def u_hash(alg):
    def go(ctx):
        ir.add_text(ctx.prog, "user.cpp", ENCUSER); stl.load_names(ctx.prog); z = api.ctxsize(alg); en = enums(); ex = api_ex(ctx); st = State()
        o = st.new("obj", csize(HEH, HE), "heap"); cast = "pgv_ash(libpgfe::HashEncoder*)"
        (st,) = [sub(x) for x in ctx.run(ex, st, fn(ctx, HE + "::HashEncoder(pgfe_algorithm_choice)"), [P(o), const(en[alg], 32)])]
        for rnd in ("constructed", "reset"):
            w = "%s %s" % (alg, rnd); c = one_ctx(ctx, ex, st, z, ("abs", alg), w)
            if c is None: return
            ctx.require(c[2][2] is Msg(), w + ": nothing absorbed yet"); sized(ctx, ex, st, cast, o, alg, w)
            updates(ctx, ex, st, HE, o, z, c[:2], lambda m: ("abs", alg, m), cast, w)
            X = anymsg("all"); nxt = None
            for dflt in ("direct", "base", "length"):
                s0 = st.clone(); put_ctx(s0, P(*c[:2]), z, ("abs", alg, X)); ex.api.expect = [X]; bl = T.var("bitlength", 64)
                if dflt == "direct": bl = c64(0); outs = ctx.run(ex, s0, fn(ctx, "pgv_def(libpgfe::HashEncoder*)"), [P(o)])
                elif dflt == "base": bl = c64(0); s0, b = enc_base(ctx, ex, s0, o, cast); outs = ctx.run(ex, s0, fn(ctx, "pgv_vdef(libpgfe::AbstractEncoder*)"), [b])
                else:
                    if alg in api.XOF:
                        bl = T.concat(T.var("bytes", 61), const(0, 3)); s0.facts.add(ule(bl, c64(1 << 59)))
                    outs = ctx.run(ex, s0, fn(ctx, HE + "::get_digest(unsigned long)"), [P(o), bl])
                D = SIZES[alg][0]; inl = T.lshrc(bl, 3)
                if alg in api.XOF: L = ite(eq(bl, c64(0)), c64(D), inl); F = lambda i: api.xo(alg, X, i)
                else: L = ite(or_(eq(bl, c64(0)), not_(ult(inl, c64(D)))), c64(D), inl); F = table(lambda j: api.dg(alg, X, j), D)
                for x in outs:
                    p = ex.norm_ptr(x, x.result)
                    holds(ctx, ex, x, p, F, x.facts.simp(L), w + ": digest"); nxt = nxt or x
            # the same object again after a reset (its previous digest still held), and finally destroyed
            s0 = sub(nxt); dead = s0.clone()
            for x in ctx.run(ex, dead, fn(ctx, HE + "::~HashEncoder()"), [P(o)]): ctx.require(not abstates(x), w + ": destroying the object releases its context")
            if rnd == "constructed": (st,) = [sub(x) for x in ctx.run(ex, s0, fn(ctx, HE + "::reset()"), [P(o)])]
            else:
                s0, b = enc_base(ctx, ex, s0, o, cast)
                for x in ctx.run(ex, s0, fn(ctx, "pgv_vreset(libpgfe::AbstractEncoder*)"), [b]):
                    c = one_ctx(ctx, ex, x, z, ("abs", alg), w + " reset through the base class")
                    if c is not None: ctx.require(c[2][2] is Msg(), w + ": reset through the base class forgets the message")
    return Unit("C01 HashEncoder(%s)" % alg, go)
def c01(): return [u_hash(a) for a in api.ALGS]
def u_hmac(alg):
    def go(ctx):
        ir.add_text(ctx.prog, "user.cpp", ENCUSER); stl.load_names(ctx.prog); z = Hm.hmac_size(alg); en = enums(); cast = "pgv_asm(libpgfe::HMACEncoder*)"
        for form in FORMS:
            ex = api_ex(ctx, hm_overrides()); st = State(); o = st.new("obj", csize(MEH, ME), "heap"); n = T.zext(T.var("keylen", 56), 64)
            for st, args, f in given(ctx, ex, st, form, "key", n):
                K = mfun(f, n); ex.api.expect = [K]; w = "HMAC-%s keyed by %s" % (alg, form)
                for s1 in ctx.run(ex, st, method(ctx, ME, "HMACEncoder", form, "pgfe_algorithm_choice, "), [P(o), const(en[alg], 32)] + args):
                    c = one_ctx(ctx, ex, s1, z, ("hm", alg), w)
                    if c is None: continue
                    for d, g in same_msg(s1, c[2][2], K): ctx.oblige(s1, g, "%s: exactly the given key bytes (%s)" % (w, d))
                    ctx.require(c[2][3] is Msg(), w + ": no message yet"); sub(s1); sized(ctx, ex, s1, cast, o, alg, w)
                    K1 = anymsg("anykey")
                    if form == "bytes": updates(ctx, ex, s1, ME, o, z, c[:2], lambda m: ("hm", alg, K1, m), cast, w)
                    X = anymsg("all"); put_ctx(s1, P(*c[:2]), z, ("hm", alg, K1, X))
                    s2, b = enc_base(ctx, ex, s1.clone(), o, cast)
                    for x in ctx.run(ex, s1, fn(ctx, ME + "::get_digest()"), [P(o)]) + ctx.run(ex, s2, fn(ctx, "pgv_vdef(libpgfe::AbstractEncoder*)"), [b]):
                        holds(ctx, ex, x, ex.norm_ptr(x, x.result), table(lambda j: hmb(alg, K1, X, j), api.FIXED[alg]), c64(api.FIXED[alg]), w + ": digest")
    return Unit("C02 HMACEncoder(%s)" % alg, go)
def c02(): return [u_hmac(a) for a in api.FIXED]

# ------------------------------------------------------------------ C06
HO = "libpgfe::HOTP"; TO = "libpgfe::TOTP"; AO = "libpgfe::AbstractOTP"; HOH = "libpgfe/otp/hotp.hpp"; TOH = "libpgfe/otp/totp.hpp"
OTPUSER = """#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
using namespace libpgfe;
AbstractOTP *pgv_ab(HOTP *p) { return p; }
AbstractOTP *pgv_ab(TOTP *p) { return p; }
HOTP *pgv_ho(TOTP *p) { return p; }
HOTP *pgv_ho(HOTP *p) { return p; }
void pgv_set(HOTP *p, const pgfe_encode_t *s, size_t n) { p->set_secret(s, n); }
void pgv_set(HOTP *p, const char *s) { p->set_secret(s); }
void pgv_set(HOTP *p, std::string &s) { p->set_secret(s); }
void pgv_set(HOTP *p, SequentialData &s) { p->set_secret(s); }
void pgv_set(AbstractOTP *p, const pgfe_encode_t *s, size_t n) { p->set_secret(s, n); }
void pgv_set(AbstractOTP *p, const char *s) { p->set_secret(s); }
void pgv_set(AbstractOTP *p, std::string &s) { p->set_secret(s); }
void pgv_set(AbstractOTP *p, SequentialData &s) { p->set_secret(s); }
void pgv_b32(HOTP *p, const char *s) { p->set_secret_from_base32(s); }
void pgv_b32(HOTP *p, std::string &s) { p->set_secret_from_base32(s); }
void pgv_b32f(HOTP *p, const char *s) { p->set_secret(s, true); }
void pgv_b32f(HOTP *p, std::string &s) { p->set_secret(s, true); }
void pgv_counter(AbstractOTP *p, pgfe_otp_counter_t c) { p->set_counter(c); }
pgfe_otp_t pgv_gen(HOTP *p, unsigned char d) { return p->generate(d); }
pgfe_otp_t pgv_gen(TOTP *p, unsigned char d) { return p->generate(d); }
pgfe_otp_t pgv_gen(AbstractOTP *p, unsigned char d) { return p->generate(d); }
std::string pgv_str(HOTP *p, unsigned char d) { return p->generate_str(d); }
std::string pgv_str(TOTP *p, unsigned char d) { return p->generate_str(d); }
std::string pgv_str(AbstractOTP *p, unsigned char d) { return p->generate_str(d); }
void pgv_int(TOTP *p, unsigned v) { p->set_interval(v); }
void pgv_ini(TOTP *p, time_t v) { p->set_initial_time(v); }
unsigned pgv_getint(TOTP *p) { return p->interval(); }
time_t pgv_getini(TOTP *p) { return p->initial_time(); }
time_t pgv_upd(TOTP *p) { return p->update_time(); }
time_t pgv_rem(TOTP *p) { return p->remaining_time(); }
"""
def code(alg, key, c, d): return T.uf("hotp_code", 32, alg, const(key.id, 32), c, d)
def otp_overrides(b32=None):
    """contracts of pgfe_hotp_generic (O01) and of the base-32 decoder object (C03)"""
    def hotp(ex, s, a):
        n = s.facts.simp(a[2]); r = ex.access(s, a[1], n, "secret of pgfe_hotp_generic"); alg = s.facts.simp(a[0])
        ok = T.isc(alg) and T.cval(alg) in [v for k, v in enums().items() if k in Hm.HOTPALGS]
        ex.oblige(s, "pre", T.boolc(ok), "pgfe_hotp_generic is given a fixed-size hash of at least 20 bytes")
        if r is None or not ok: s.facts.add(FALSE); return const(0, 32)
        return code(alg, ex.api.canon(s, msg(api.read_seg(ex, s, r, n))), a[3], a[4] if a[4].w == 8 else T.trunc(a[4], 8))
    ov = {"pgfe_hotp_generic": hotp}
    return ov
def b32_over(ctx, ex, text, tn, g, cnt):
    """AbstractBaseEncoding::decode on the expected text: the decoded bytes (C03)"""
    base = ex.ovdyn
    def h(ex_, s, a, strk):
        # result object, encoder, text
        p = ex.norm_ptr(s, a[2]); q = stl.sptr(ex, s, p) if strk else p; n = stl.slen(ex, s, p) if strk else BI.cstr_len(ex, s, p)
        ex.oblige(s, "pre", eq(n, tn), "the decoder is given the whole text")
        j = T.zext(T.fresh("j", 62), 64); x = s.clone(); x.facts.add(ult(j, tn))
        if not x.facts.false: ex.oblige(x, "pre", eq(x.content(q.obj).read(T.add(q.off, j), 1, x.dec, x.bnd), text(j)), "the decoder is given the text's bytes")
        (o,) = [o for o in [s.new("decoded", cnt, "heap", base=ALam(g), ro=True)]]
        outs = ex.call(s, fn(ctx, SD + "::SequentialData(%s, unsigned long)" % CB), [a[0], P(o), cnt]); return [(sub(y), None) for y in outs]
    def ovdyn(name):
        if name.startswith("_Z"):
            d = stl.dem(name)
            if d == "libpgfe::AbstractBaseEncoding::decode(char const*)": return lambda e, s, a: h(e, s, a, False)
            if d == "libpgfe::AbstractBaseEncoding::decode(S const&)": return lambda e, s, a: h(e, s, a, True)
        return base(name)
    ex.ovdyn = ovdyn
def fnp(ctx, name): return fn(ctx, name)
UT = {"bytes": CB + ", unsigned long", "cstr": "char const*", "string": "S&", "data": SD + "&"}
def cast(ctx, ex, st, p, cls, to):
    (x,) = [sub(y) for y in ctx.run(ex, st, fn(ctx, "pgv_%s(%s*)" % (to, cls)), [p])]
    return x, ex.norm_ptr(x, x.last)
def run1(ctx, ex, st, name, args):
    """the states after a call that returns"""
    return [sub(x) for x in ctx.run(ex, st, fn(ctx, name), args)]
def otp_new(ctx, ex, st, cls, alg, form, name, iv=None):
    """[(state, object, key message)]; form None: without a secret"""
    en = enums(); o = st.new("obj", csize(HOH if cls == HO else TOH, cls), "heap"); a = const(en[alg], 32); tail = ([iv] if cls == TO else []) + [a]; tt = ("unsigned int, " if cls == TO else "") + "pgfe_algorithm_choice"
    if form is None: return [(x, o, None) for x in run1(ctx, ex, st, "%s::%s(%s)" % (cls, cls[9:], tt), [P(o)] + tail)]
    n = T.zext(T.var(name + "len", 56), 64); out = []
    for st, args, f in given(ctx, ex, st, form, name, n):
        ex.api.expect = ex.api.expect + [mfun(f, n)]
        out += [(x, o, mfun(f, n)) for x in run1(ctx, ex, st, "%s::%s(%s, %s)" % (cls, cls[9:], UT[form], tt), [P(o)] + args + tail)]
    return out
def otp_set(ctx, ex, st, o, cls, how, form, name):
    """[(state, key)] after setting a secret: how in set, aset (through the base class), b32, b32f"""
    n = T.zext(T.var(name + "len", 56), 64); out = []
    st, p = cast(ctx, ex, st, P(o), cls, "ab" if how == "aset" else "ho")
    if how.startswith("b32"):
        cnt = T.zext(T.var(name + "cnt", 56), 64); g = U8(name + "_dec"); text = (lambda i: nonzero(T.uf(name, 8, i))) if form == "cstr" else U8(name)
        K = mfun(g, cnt); ex.api.expect = ex.api.expect + [K]; b32_over(ctx, ex, text, n, g, cnt)
        args = [P(ctext(st, name, text, n) if form == "cstr" else sobj(st, name, text, n))]
        return [(x, K) for x in run1(ctx, ex, st, "pgv_%s(%s*, %s)" % (how, HO, UT[form]), [p] + args)]
    for st, args, f in given(ctx, ex, st, form, name, n):
        K = mfun(f, n); ex.api.expect = ex.api.expect + [K]
        out += [(x, K) for x in run1(ctx, ex, st, "pgv_set(%s*, %s)" % (AO if how == "aset" else HO, UT[form]), [p] + args)]
    return out
def otp_code(ctx, ex, st, o, cls, alg, K, c, w):
    """generate, directly and through the base class, gives the code; [(state afterwards)]"""
    d = T.var("digits", 8); out = []
    for via in (cls, AO):
        s0 = st.clone(); p = P(o)
        if via == AO: s0, p = cast(ctx, ex, s0, p, cls, "ab")
        for x in run1(ctx, ex, s0, "pgv_gen(%s*, unsigned char)" % via, [p, d]):
            ctx.oblige(x, eq(x.last, code(const(enums()[alg], 32), K, c, d)), "%s: the code for the current secret, hash, counter and digit count%s" % (w, " (base class)" if via == AO else ""))
            if via == cls: out.append(x)
    return out
def dectext(v, d):
    """[(fact, length, byte function)]: v in decimal, left-padded with zeros to d characters"""
    out = []
    for n in range(1, 11):
        lo, hi = (0 if n == 1 else 10 ** (n - 1)), 10 ** n
        fact = and_(ule(const(lo, 32), v), ult(v, const(hi, 32)) if n < 10 else TRUE); L = max(n, d); pad = L - n
        out.append((fact, L, [const(48, 8)] * pad + [stl.decdigit(v, n - 1 - j) for j in range(n)]))
    return out
def infeasible_with(st, v, fact):
    """fact contradicts what is known about the term v"""
    fs = smt.Facts(); z = T.var("the_value", v.w)
    for f in st.facts.list:
        if any(t is v for t in T.postorder([f])): fs.add(T.subst(f, {v: z}))
    fs.add(T.subst(fact, {v: z}))
    return fs.false or smt.prove(fs, FALSE)[0]
def otp_text(ctx, ex, st, o, cls, alg, K, c, d, w, via=None):
    r = st.new("result", 32, "heap"); p = P(o); via = via or cls
    if via == AO: st, p = cast(ctx, ex, st, p, cls, "ab")
    v = code(const(enums()[alg], 32), K, c, const(d, 8)); out = []
    for x in run1(ctx, ex, st, "pgv_str(%s*, unsigned char)" % via, [P(r), p, const(d, 8)]):
        L = x.facts.simp(stl.slen(ex, x, P(r))); dat = stl.sptr(ex, x, P(r)); hit = FALSE
        for fact, n, bs in dectext(v, d):
            if infeasible_with(x, v, fact): continue
            y = x.clone(); y.facts.add(fact)
            if y.facts.false: continue
            ctx.oblige(y, eq(L, c64(n)), "%s: text of %d digits: length" % (w, d))
            if not (T.isc(L) and T.cval(L) == n): continue
            bad = [k for k in range(n) if y.facts.simp(y.content(dat.obj).read(T.add(dat.off, c64(k)), 1, y.dec, y.bnd)) is not y.facts.simp(bs[k])]
            if not bad: ctx.require(True, "%s: text of %d digits: every character" % (w, d))
            for k in bad: ctx.oblige(y, eq(y.content(dat.obj).read(T.add(dat.off, c64(k)), 1, y.dec, y.bnd), bs[k]), "%s: text of %d digits: character %d" % (w, d, k))
        out.append(x)
    return out
def otp_ex(ctx, st):
    ir.add_text(ctx.prog, "user.cpp", OTPUSER) if not any(m.path == "user.cpp" for m in ctx.prog.mods) else None
    stl.load_names(ctx.prog); box = []; ov = otp_overrides(); ov["time"] = lambda e, s, a: box[0].clk.time(e, s, a); ex = api_ex(ctx, ov); box.append(ex)
    return ex
def refuse(ctx, ex, st, o, cls, w):
    for nm, args in (("pgv_gen(%s*, unsigned char)", []), ("pgv_str(%s*, unsigned char)", [P(st.new("result", 32, "heap"))])):
        ctx.run(ex, st.clone(), fn(ctx, nm % cls), args + [P(o), T.var("digits", 8)], kinds=("throw",))
def u_hotp(alg):
    def go(ctx):
        for form in FORMS:
            st = State(); ex = otp_ex(ctx, st)
            for st, o, K in otp_new(ctx, ex, st, HO, alg, form, "secret"):
                s1 = (otp_code(ctx, ex, st, o, HO, alg, K, c64(0), "HOTP(%s, %s)" % (alg, form)) or [None])[0]
                if s1 is None: continue
                c = T.var("counter", 64); s1, p = cast(ctx, ex, s1, P(o), HO, "ab")
                for s2 in run1(ctx, ex, s1, "pgv_counter(%s*, unsigned long)" % AO, [p, c]):
                    for s3 in otp_code(ctx, ex, s2, o, HO, alg, K, c, "HOTP(%s, %s) after set_counter" % (alg, form)):
                        if form == "bytes": resets(ctx, ex, s3, o, HO, alg, lambda x, K, w: otp_code(ctx, ex, x, o, HO, alg, K, c, w))
        st = State(); ex = otp_ex(ctx, st)
        for st, o, K in otp_new(ctx, ex, st, HO, alg, None, ""):
            refuse(ctx, ex, st, o, HO, "HOTP(%s)" % alg)
            resets(ctx, ex, st, o, HO, alg, lambda x, K, w: otp_code(ctx, ex, x, o, HO, alg, K, c64(0), w), "no secret, then ")
    return Unit("C06 HOTP(%s)" % alg, go)
def resets(ctx, ex, st, o, cls, alg, then, pre=""):
    """every way of setting a secret"""
    base, exp = ex.ovdyn, ex.api.expect
    for how, form in [("set", k) for k in FORMS] + [("aset", k) for k in FORMS] + [(h, k) for h in ("b32", "b32f") for k in ("cstr", "string")]:
        ex.ovdyn = base; ex.api.expect = list(exp)
        for x, K in otp_set(ctx, ex, st.clone(), o, cls, how, form, "new"): then(x, K, "%s(%s): %s%s %s" % (cls[9:], alg, pre, how, form))
    ex.ovdyn = base
def u_hotp_text(ds):
    def go(ctx):
        st = State(); ex = otp_ex(ctx, st); (st, o, K), = otp_new(ctx, ex, st, HO, "sha1", "bytes", "secret"); c = T.var("counter", 64)
        st, p = cast(ctx, ex, st, P(o), HO, "ab"); (st,) = run1(ctx, ex, st, "pgv_counter(%s*, unsigned long)" % AO, [p, c])
        for d in ds:
            otp_text(ctx, ex, st.clone(), o, HO, "sha1", K, c, d, "HOTP")
            if d % 16 == 6: otp_text(ctx, ex, st.clone(), o, HO, "sha1", K, c, d, "HOTP via the base class", AO)
    return Unit("C06 HOTP text form, %d..%d digits" % (ds[0], ds[-1]), go)
def clock(ex, st, init, nm):
    k = Hm.Clock.__new__(Hm.Clock); k.off = T.zext(T.var("passed" + nm, 62), 64); k.now = T.add(init, k.off)
    k.cell = st.new("clock calls", 8, "ghost"); st.wcontent(k.cell).write(c64(0), 8, c64(0), st.bnd); ex.clk = k; return k
def settings(ctx, ex, st, o, nm, which):
    """set interval and initial time to arbitrary admissible values (which: which of them), read them back"""
    iv = T.var("interval" + nm, 32); init = T.sext(T.var("initial" + nm, 62), 64)
    if "i" in which:
        st.facts.add(ne(iv, const(0, 32))); st.facts.add(ule(iv, const((1 << 31) - 1, 32)))
        (st,) = run1(ctx, ex, st, "pgv_int(%s*, unsigned int)" % TO, [P(o), iv])
        for x in run1(ctx, ex, st.clone(), "pgv_getint(%s*)" % TO, [P(o)]): ctx.oblige(x, eq(x.last, iv), "interval() reports the interval set")
    if "t" in which:
        (st,) = run1(ctx, ex, st, "pgv_ini(%s*, long)" % TO, [P(o), init])
        for x in run1(ctx, ex, st.clone(), "pgv_getini(%s*)" % TO, [P(o)]): ctx.oblige(x, eq(x.last, init), "initial_time() reports the time set")
    return st, iv, init
def chk_totp(ctx, ex, st, o, alg, K, iv, init, w, nm, text=None):
    """at an arbitrary moment: code, update time, remaining time at a later moment; states afterwards"""
    k = clock(ex, st, init, nm); ivl = T.zext(iv, 64); c = T.udiv(k.off, ivl)
    outs = otp_code(ctx, ex, st, o, TO, alg, K, c, w) if text is None else otp_text(ctx, ex, st, o, TO, alg, K, c, text, w, AO if text == 6 else None)
    for x in outs:
        for y in run1(ctx, ex, x.clone(), "pgv_upd(%s*)" % TO, [P(o)]): ctx.oblige(y, eq(y.last, k.now), w + ": update_time() is the moment of generation")
        y = x.clone(); later = T.add(k.now, T.zext(T.var("later" + nm, 40), 64))
        ex.clk = type("L", (), {"time": staticmethod(lambda e, s, a: later)})()
        for z in run1(ctx, ex, y, "pgv_rem(%s*)" % TO, [P(o)]):
            ctx.oblige(z, eq(z.last, T.sub(T.sub(ivl, T.urem(k.off, ivl)), T.sub(later, k.now))), w + ": remaining_time() counts down to the next step")
    return outs
def u_totp(alg):
    def go(ctx):
        for form in FORMS:
            st = State(); ex = otp_ex(ctx, st); iv0 = T.var("interval0", 32); st.facts.add(ne(iv0, const(0, 32))); st.facts.add(ule(iv0, const((1 << 31) - 1, 32)))
            for st, o, K in otp_new(ctx, ex, st, TO, alg, form, "secret", iv0):
                w = "TOTP(%s, %s)" % (alg, form)
                if form != "bytes": chk_totp(ctx, ex, st, o, alg, K, iv0, c64(0), w + " fresh", "0"); continue
                # arbitrary earlier settings and moment, then any change of settings, then any moment
                st, iv, init = settings(ctx, ex, st, o, "1", "it")
                for s1 in chk_totp(ctx, ex, st, o, alg, K, iv, init, w, "1"):
                    for which in ("", "i", "t", "it"):
                        s2, a, b = settings(ctx, ex, s1.clone(), o, "2", which)
                        a = a if "i" in which else iv; b = b if "t" in which else init
                        chk_totp(ctx, ex, s2, o, alg, K, a, b, w + " again after changing %s" % {"": "nothing", "i": "interval", "t": "initial time", "it": "both"}[which], "2")
                    s2 = s1.clone(); s2, p = cast(ctx, ex, s2, P(o), TO, "ab"); (s2,) = run1(ctx, ex, s2, "pgv_counter(%s*, unsigned long)" % AO, [p, T.var("counter", 64)])
                    chk_totp(ctx, ex, s2, o, alg, K, iv, init, w + " after set_counter", "2")
                    if alg == "sha1": resets(ctx, ex, s1.clone(), o, TO, alg, lambda x, K2, w2: chk_totp(ctx, ex, x, o, alg, K2, iv, init, w2, "2"))
        st = State(); ex = otp_ex(ctx, st)
        for st, o, K in otp_new(ctx, ex, st, TO, alg, None, "", const(30, 32)):
            clock(ex, st, c64(0), "0"); refuse(ctx, ex, st, o, TO, "TOTP(%s)" % alg)
    return Unit("C06 TOTP(%s)" % alg, go)
def u_totp_text(ds):
    def go(ctx):
        st = State(); ex = otp_ex(ctx, st); iv0 = T.var("interval0", 32); st.facts.add(ne(iv0, const(0, 32))); st.facts.add(ule(iv0, const((1 << 31) - 1, 32)))
        (st, o, K), = otp_new(ctx, ex, st, TO, "sha1", "bytes", "secret", iv0); st, iv, init = settings(ctx, ex, st, o, "1", "it")
        for d in ds: chk_totp(ctx, ex, st.clone(), o, "sha1", K, iv, init, "TOTP", "1", d)
    return Unit("C06 TOTP text form, %d..%d digits" % (ds[0], ds[-1]), go)
def c06():
    return [u_hotp(a) for a in Hm.HOTPALGS] + [u_totp(a) for a in Hm.HOTPALGS] + [u_hotp_text(range(k, k + 16)) for k in range(0, 256, 16)] + [u_totp_text(range(k, k + 16)) for k in range(0, 256, 16)]

# ------------------------------------------------------------------ C03
from . import bases as Bs
BE = "libpgfe::AbstractBaseEncoding"
# class, header, constructor, arguments, kind of encoder, kind of decoder
BASES = [("Base16", "base16", "()", (), "16", "16"), ("Base32", "base32", "(bool)", (0,), "32", "32"), ("Base32", "base32", "(bool)", (1,), "32hex", "32hex"),
         ("Base64", "base64", "(bool)", (0,), "64", "64"), ("Base64", "base64", "(bool)", (1,), "64url", "64")]
BASEUSER = "".join('#include "libpgfe/base_encoding/%s.hpp"\n' % b for b in ("base16", "base32", "base64")) + "using namespace libpgfe;\n" + \
    "".join("AbstractBaseEncoding *pgv_base(%s *p) { return p; }\nvoid pgv_del(%s *p) { p->~%s(); }\n" % (c, c, c) for c in ("Base16", "Base32", "Base64"))
def encb(kind, d, i): return T.uf("enc_" + kind, 8, const(d.id, 32), i)
def decb(kind, d, i): return T.uf("dec_" + kind, 8, const(d.id, 32), i)
def decn(kind, d): return T.zext(T.uf("decn_" + kind, 58, const(d.id, 32)), 64)
class Len:
    """a length per*N + rem with its number of groups"""
    def __init__(s, name, per, rem):
        s.N = T.zext(T.var(name, 54), 64); s.n = T.linear(rem, [(per, s.N)], 64) if per > 1 else s.N; s.groups = T.add(s.N, c64(1 if rem else 0))
def codec_overrides(ex_box, lens):
    """contracts of the C encoders (E01) and decoders (E02, E03): the text, and the bytes and their number, are functions of the input; the
    text has a whole number of groups, the decoder writes at most the space of the whole groups and one terminator.
    lens: length term -> Len"""
    def length(ex, s, n, per):
        n = s.facts.simp(n)
        for L in lens:
            if L.n is n or smt.prove(s.facts, eq(L.n, n), 20)[0]: return L
        ex.oblige(s, "pre", FALSE, "the C function is given the length of the data"); return None
    def enc(kind):
        bits, unit, chunk = Bs.K[kind][1:4]; N = Bs.K[kind][4]
        def h(ex, s, a):
            L = length(ex, s, a[1], unit); r = ex.access(s, a[0], a[1], "input of " + N)
            if L is None or r is None: s.facts.add(FALSE); return c64(0)
            tl = T.linear(0, [(chunk, L.groups)], 64); o = ex.access(s, a[2], T.add(tl, c64(1)), "output of " + N, True)
            if o is None: s.facts.add(FALSE); return tl
            d = ex.api.canon(s, msg(api.read_seg(ex, s, r, L.n))); f = lambda i: nonzero(encb(kind, d, i))
            if T.isc(o.off) and T.cval(o.off) == 0:
                old = s.content(o.obj); old = Content(old.base, dict(old.cells)).snapshot(); dec = s.dec
                s.mem[o.obj] = Content(AStr(f, tl, lambda i: old.get(i, lambda c: None)), None, s.tok)
            else: s.wcontent(o.obj).copyin(o.off, T.add(tl, c64(1)), Content(AStr(f, tl)), c64(0), s.dec, s.bnd)
            return tl
        return h
    def dec(kind):
        bits, unit, chunk = Bs.K[kind][1:4]; N = Bs.K[kind][5]
        def h(ex, s, a):
            n = BI.cstr_len(ex, s, a[0]); L = length(ex, s, n, chunk); r = ex.access(s, a[0], T.add(n, c64(1)), "text of " + N)
            if L is None or r is None: s.facts.add(FALSE); return c64(0)
            cap = T.linear(0, [(unit, L.groups)], 64); o = ex.access(s, a[1], T.add(cap, c64(1)), "output of " + N, True)
            if o is None: s.facts.add(FALSE); return c64(0)
            d = ex.api.canon(s, msg(api.read_seg(ex, s, r, L.n))); cnt = decn(kind, d); s.facts.add(ule(cnt, cap)); jk = T.fresh("beyond", 64).a[0]
            s.wcontent(o.obj).copyin(o.off, T.add(cap, c64(1)), Content(ALam(lambda i: ite(ult(i, cnt), decb(kind, d, i), T.uf(jk, 8, i)))), c64(0), s.dec, s.bnd)
            return cnt
        return h
    ov = {}
    for k in Bs.K: ov[Bs.K[k][4]] = enc(k)
    for k in ("16", "32", "32hex", "64"): ov[Bs.K[k][5]] = dec(k)
    return ov
def base_new(ctx, ex, st, spec):
    cls, h, sig, args = spec[:4]; full = "libpgfe::" + cls; o = st.new("obj", csize("libpgfe/base_encoding/%s.hpp" % h, full), "heap")
    (st,) = run1(ctx, ex, st, "%s::%s%s" % (full, cls, sig), [P(o)] + [const(a, 1) for a in args]); st, p = cast(ctx, ex, st, P(o), full, "base")
    return st, o, p
class Cached:
    """class invariant over the fields the operations change: every size field is at least its initial value, every buffer has its initial
    number of bytes more than a size field (the relations that all operations preserve; found by weakening, then proved)"""
    def __init__(s, st, o):
        s.o = o; s.cells = dict(st.content(o).cells); s.base = st.content(o).base; s.init = st; s.W = set(); s.rel = {}; s.low = set(); s.floor = set(); s.tries = {}
    def value(s, st, k):
        c = st.content(s.o).cells.get(k); return None if c is None else c[1]
    def touch(s, ks):
        """more fields are changed by the operations: relations between them and the buffers"""
        new = set(ks) - s.W; s.W |= new
        for k in new:
            w, v = s.cells[k] if k in s.cells else (None, None)
            if w is None: raise Unsupported("the operation changes a field the constructor leaves unset")
        if not new: return
        ints = [k for k in sorted(s.W) if s.cells[k][0] == 8 and isinstance(s.cells[k][1], T.T) and T.isc(s.cells[k][1])]; s.low |= {k for k in new if k in ints}
        for b in sorted(s.W):
            v = s.cells[b][1]
            if isinstance(v, Ptr):
                r = s.rel.setdefault(b, {})
                if T.isc(v.obj.size): r.update({f: T.cval(v.obj.size) - T.cval(s.cells[f][1]) for f in ints if f in new or b in new})
                if b in new: s.floor.add(b)
    def arbitrary(s):
        """an arbitrary state satisfying the invariant"""
        st = s.init.clone(); s.scramble(st, s.W); return st
    def scramble(s, st, fields):
        """the fields (and their buffers) take arbitrary values satisfying the invariant"""
        c = st.wcontent(s.o); val = {}
        for k in sorted(fields):
            w, v = s.cells[k]
            if isinstance(v, Ptr): continue
            x = T.zext(T.fresh("field", 59), 64) if w == 8 else T.fresh("field", 8 * w)
            if k in s.low: st.facts.add(ule(v, x))
            c.write(c64(k), w, x, st.bnd); val[k] = x
        for k in sorted(fields):
            w, v = s.cells[k]
            if not isinstance(v, Ptr): continue
            old = st_ptr(s.value(st, k))
            if old is not None: st.dead.add(old.obj)
            z = T.zext(T.fresh("size", 60), 64)
            for f, d in sorted(s.rel[k].items()): st.facts.add(more(z, val[f] if f in val else s.value(st, f), d))
            if k in s.floor: st.facts.add(ule(v.obj.size, z))
            b = st.new("cache", z, "heap"); c.write(c64(k), 8, P(b), st.bnd)
    def changed(s, st, before):
        """keys of fields that differ from the state before"""
        a, b = before.content(s.o), st.content(s.o)
        if a.base is not b.base: raise Unsupported("the object is written at an unknown place")
        ks = set(a.cells) | set(b.cells)
        return {k for k in ks if k not in a.cells or k not in b.cells or a.cells[k][0] != b.cells[k][0] or not X_same(a.cells[k][1], b.cells[k][1])}
    def lower(s, k, f, d, diff):
        """the relation does not hold with d: the difference seen instead, or no relation"""
        s.tries[k, f] = s.tries.get((k, f), 0) + 1; s.rel[k].pop(f, None)
        if diff is not None and T.isc(diff) and s.tries[k, f] < 6:
            e = T.cval(diff); e -= (e >> 63) << 64
            if -(1 << 20) < e < d: s.rel[k][f] = e
    def goals(s, st, fields=None):
        """[(what, goal or None, weaken)] the invariant in st"""
        out = []
        for k in sorted(s.W if fields is None else fields):
            w, v0 = s.cells[k]; v = s.value(st, k)
            if v is None or st.content(s.o).cells[k][0] != w: out.append(("field +%d" % k, FALSE, None)); continue
            if k in s.low: out.append(("field +%d at least its initial value" % k, ule(v0, v) if isinstance(v, T.T) else FALSE, lambda k=k: s.low.discard(k)))
            if isinstance(v0, Ptr):
                v = st_ptr(v)
                if v is None or v.obj in st.dead: out.append(("buffer +%d is alive" % k, FALSE, None)); continue
                out.append(("buffer +%d: its start" % k, eq(v.off, c64(0)), None)); 
                if k in s.floor: out.append(("buffer +%d has its initial size or more" % k, ule(v0.obj.size, v.obj.size), lambda k=k: s.floor.discard(k)))
                for f, d in sorted(s.rel[k].items()):
                    x = s.value(st, f); ok = isinstance(x, T.T)
                    out.append(("buffer +%d has at least %d bytes more than field +%d" % (k, d, f), more(v.obj.size, x, d) if ok else FALSE, lambda k=k, f=f, d=d, x=x, z=v.obj.size: s.lower(k, f, d, st.facts.simp(T.sub(z, x)) if ok else None)))
        return out
def more(z, x, d):
    """z >= x + d over the integers, for z, x below 2^63"""
    return ule(T.linear(d, [(1, x)], 64), z) if d >= 0 else ule(x, T.linear(-d, [(1, z)], 64))
def st_ptr(v): return v if isinstance(v, Ptr) and v.obj is not None and not isinstance(v.obj, tuple) else None
def base_ops(spec):
    """[(name, number of remainders)]"""
    kind, dk = spec[4:6]
    return [("encode", f, r) for f in FORMS for r in range(Bs.K[kind][2])] + [("decode", f, r) for f in ("cstr", "string") for r in range(Bs.K[dk][3])]
def base_call(ctx, ex, st, p, spec, lens, op, form, rem, check=None, kinds=("ret",), mon=None):
    """run one operation with arbitrary data on the object of st; check(state before, outcome, result object, spec function, length)"""
    kind, dk = spec[4:6]; enc = op == "encode"; per = Bs.K[kind][2] if enc else Bs.K[dk][3]; L = Len("N", per, rem); outs = []
    if enc: data = given(ctx, ex, st, form, "data", L.n)
    else:
        f = lambda i: nonzero(T.uf("text", 8, i))
        if form == "string":
            o = sobj(st, "text", f, L.n); d = stl.sptr(ex, st, P(o)).obj; st.mem[d] = Content(AStr(f, L.n), None, st.tok); data = [(st, [P(o)], f)]
        else: data = [(st, [P(ctext(st, "text", f, L.n))], f)]
    for s1, args, f in data:
        D = mfun(f, L.n); ex.api.expect = [D]; lens[:] = [L]; r = s1.new("result", 32 if enc else csize(SH, SD), "heap"); before = s1.clone()
        F = pick(ctx, ["%s::%s(%s)" % (BE, op, t) for t in ({"string": ("S const&",), "data": (SD + " const&",)}.get(form) or argt(form))])
        if mon: mon.on = True
        outs1 = ctx.run(ex, s1, F, [P(r), p] + args, kinds=kinds)
        if mon: mon.on = False
        for x in outs1:
            if enc: g = lambda i: nonzero(encb(kind, D, i)); n = T.linear(0, [(Bs.K[kind][3], L.groups)], 64)
            else: g = lambda i: decb(dk, D, i); n = decn(dk, D)
            if check: check(before, x, r, g, n)
            outs.append((before, x))
    return outs
def base_ex(ctx, more=None):
    ir.add_text(ctx.prog, "user.cpp", BASEUSER) if not any(m.path == "user.cpp" for m in ctx.prog.mods) else None
    lens = []; ov = codec_overrides(None, lens); ov.update({"pthread_mutex_lock": lambda e, s, a: const(0, 32), "pthread_mutex_unlock": lambda e, s, a: const(0, 32)}); ov.update(more or {})
    return api_ex(ctx, ov), lens
def invariant(ctx, ex, lens, spec):
    """weaken the candidate invariant until every operation preserves it"""
    st, o, p = base_new(ctx, ex, State(), spec); C = Cached(st, o); n0 = len(ex.obls); q = ex.quiet; ex.quiet = True
    for rnd in range(40):
        again = False
        for op, form, rem in (("encode", "bytes", 0), ("decode", "cstr", 0), ("encode", "bytes", Bs.K[spec[4]][2] - 1), ("decode", "cstr", 1)):
            for before, x in base_call(ctx, ex, C.arbitrary(), p, spec, lens, op, form, rem):
                ks = C.changed(x, before)
                if not ks <= C.W: C.touch(ks); again = True; continue
                for what, g, weak in C.goals(x):
                    if weak is not None and not smt.prove(x.facts, g, 20)[0]: weak(); again = True
        if not again: break
    ex.quiet = q; del ex.obls[n0:]
    return st, o, p, C
def u_base(spec, form):
    def go(ctx):
        ex, lens = base_ex(ctx); st, o, p, C = invariant(ctx, ex, lens, spec); kind, dk = spec[4:6]; w = "%s%s" % (spec[0], str(spec[3]).replace(",)", ")")); K = Bs.K[kind]
        for nm, v in (("unit_size", K[2]), ("chunk_size", K[3]), ("bit_size", K[1]), ("alphabet_size", len(K[0]))):
            for x in ctx.run(ex, st.clone(), fn(ctx, "%s::%s() const" % (BE, nm)), [p]): ctx.oblige(x, eq(x.result, const(v, 16)), "%s: %s()" % (w, nm))
        for what, g, weak in C.goals(st): ctx.oblige(st, g, "%s constructed: %s" % (w, what))
        for op, f, rem in base_ops(spec):
            if f != form: continue
            W = "%s.%s(%s)" % (w, op, f)
            def check(before, x, r, g, n):
                holds(ctx, ex, x, P(r), g, n, W + ": the C function's result for exactly the data given"); ks = C.changed(x, before)
                ctx.require(ks <= C.W, W + ": other fields keep their values")
                for what, gg, weak in C.goals(x): ctx.oblige(x, gg, "%s: %s" % (W, what))
                sub(x); ctx.run(ex, x.clone(), fn(ctx, "pgv_del(libpgfe::%s*)" % spec[0]), [P(o)])
            base_call(ctx, ex, C.arbitrary(), p, spec, lens, op, f, rem, check)
    return Unit("C03 %s%s, %s" % (spec[0], spec[3] or "", form), go)
def c03(): return [u_base(s, f) for s in BASES for f in FORMS]

# ------------------------------------------------------------------ C08: monitor invariant of the base encoder objects
CODEC = {Bs.K[k][j] for k in Bs.K for j in (4, 5)}
class Monitor:
    """ownership of the shared fields: every field of the object that an operation changes, and the buffer it points to, is accessed only
    while a lock common to all its accesses is held; the class invariant restricted to a lock's fields holds whenever the lock is free.
    A lock acquired again in one call finds its fields in an arbitrary state of the invariant."""
    def __init__(m, ex, o, C):
        m.ex = ex; m.o = o; m.C = C; m.acc = {}; m.edges = set(); m.prot = None; m.ctx = None; m.on = False; m.entry = {}
        base = ex.access
        def access(st, p, n, what, write=False):
            q = base(st, p, n, what, write)
            if m.on and q is not None: m.note(st, q, n, write)
            return q
        ex.access = access
        bo = ex.ovdyn; names = {}
        def ovdyn(name):
            if name in names: return names[name]
            h = bo(name)
            if name in ("_Znwm", "_Znam"): h = m.may_fail(h)
            elif name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"): h = m.deleting(h)
            elif h is not None and name.startswith("_Z") and m.allocates(stl.dem(name)): h = m.may_fail(h)
            elif h is not None and name in CODEC: h = m.globs(name, h)
            names[name] = h; return h
        ex.ovdyn = ovdyn
    def allocates(m, d):
        """members of the standard strings that may allocate (and so may throw std::bad_alloc)"""
        k = re.match(r"[SU]::(~?\w+)\((.*?)\)", d)
        if d.startswith(("S std::operator+", "U std::operator+")): return True
        if not k: return False
        if k.group(1) == "basic_string": return k.group(2) != "" and "&&" not in k.group(2)
        return k.group(1) in ("append", "assign", "insert", "push_back", "resize", "reserve", "operator", "substr")
    def globs(m, name, h):
        """a C function's globals are shared between calls"""
        from . import frames
        gs = frames.globals_of(m.ex.prog, name)
        def g(ex, s, a):
            if m.on:
                for x, w in gs: m.add(s, x, w)
            return h(ex, s, a)
        return g
    def may_fail(m, h):
        def g(ex, s, a):
            if not m.on: return h(ex, s, a)
            t = s.clone(); r = h(ex, s, a)
            return (r if isinstance(r, list) else [(s, r)]) + [(t, Throw(("std::bad_alloc",)))]
        return g
    def deleting(m, h):
        def g(ex, s, a):
            p = ex.norm_ptr(s, a[0])
            if m.on and isinstance(p, Ptr) and p.obj is not None and not isinstance(p.obj, tuple) and p.obj not in s.dead: m.note(s, p, p.obj.size, True)
            return h(ex, s, a)
        return g
    def held(m, st): return st.ghost.get("held", frozenset())
    def note(m, st, q, n, write):
        if q.obj is m.o:
            if not (T.isc(q.off) and T.isc(n)): raise Unsupported("access to the object at an unknown place")
            lo, hi = T.cval(q.off), T.cval(q.off) + T.cval(n)
            for k, (w, v) in m.C.cells.items():
                if k < hi and lo < k + w: m.add(st, k, write)
        elif q.obj.kind == "global":
            if write: m.add(st, q.obj.name, True)
        else:
            for k in m.C.W:
                v = m.C.value(st, k)
                if isinstance(v, Ptr) and v.obj is q.obj: m.add(st, k, write)
    def add(m, st, k, write):
        w, ls, seen = m.acc.get(k, (False, None, 0)); h = m.held(st); m.acc[k] = (w or write, h if ls is None else ls & h, seen + 1)
    def key(m, st, p):
        p = m.ex.norm_ptr(st, p)
        return (p.obj.name if p.obj is not m.o else "object", T.cval(p.off) if T.isc(p.off) else "?") if p.obj is not None and not isinstance(p.obj, tuple) else None
    def lock(m, ex, st, a):
        k = m.key(st, a[0])
        if not m.on: return const(0, 32)
        ex.oblige(st, "lock", T.boolc(k is not None and k[0] == "object" and k[1] != "?"), "the lock is a member of the object")
        h = m.held(st); ex.oblige(st, "lock", T.boolc(k not in h), "a lock is not acquired twice")
        for x in h: m.edges.add((x, k))
        st.ghost["held"] = h | {k}
        again = st.ghost.get("locked", frozenset())
        if k in again and m.prot is not None: m.interfere(st, k, h)
        st.ghost["locked"] = again | {k}
        return const(0, 32)
    def fields(m, k, h=frozenset()): return {x for x in m.C.W if k in m.prot.get(x, ()) and not (h & m.prot.get(x, frozenset()))}
    def interfere(m, st, k, h):
        m.C.scramble(st, m.fields(k, h))
    def unlock(m, ex, st, a):
        k = m.key(st, a[0])
        if not m.on: return const(0, 32)
        h = m.held(st); ex.oblige(st, "lock", T.boolc(k in h), "only a held lock is released"); st.ghost["held"] = h - {k}
        if m.prot is not None:
            fs = m.fields(k, h - {k})
            for what, g, weak in m.C.goals(st, fs): ex.oblige(st, "invariant", g, "when a lock is released: " + what)
        return const(0, 32)
def u_monitor(spec):
    def go(ctx):
        box = []; ex, lens = base_ex(ctx, {"pthread_mutex_lock": lambda e, s, a: box[0].lock(e, s, a) if box else const(0, 32), "pthread_mutex_unlock": lambda e, s, a: box[0].unlock(e, s, a) if box else const(0, 32)})
        st, o, p, C = invariant(ctx, ex, lens, spec); kind, dk = spec[4:6]; w = "%s%s" % (spec[0], str(spec[3]).replace(",)", ")")); m = Monitor(ex, o, C); box.append(m)
        gets = ["%s::%s() const" % (BE, nm) for nm in ("unit_size", "chunk_size", "bit_size", "alphabet_size")]
        def everything(run):
            for op, f, rem in base_ops(spec): run(op, f, rem)
            for g in gets:
                a = C.arbitrary(); m.on = True; ctx.run(ex, a, fn(ctx, g), [p]); m.on = False
        # which lock protects which field
        n0 = len(ex.obls); q = ex.quiet; ex.quiet = True
        def probe(op, f, rem):
            base_call(ctx, ex, C.arbitrary(), p, spec, lens, op, f, rem, lambda before, x, r, g, n: C.touch(C.changed(x, before)), kinds=("ret", "throw"), mon=m)
        everything(probe); ex.quiet = q; del ex.obls[n0:]
        m.prot = {k: ls for k, (wr, ls, seen) in m.acc.items()}
        for k, (wr, ls, seen) in sorted(m.acc.items(), key=lambda t: str(t[0])):
            if wr: ctx.require(bool(ls), "%s: %s is accessed only with one common lock held" % (w, "field +%s (and its buffer)" % k if not isinstance(k, str) else "global " + k))
        ctx.require({k for k, (wr, ls, seen) in m.acc.items() if wr and not isinstance(k, str)} <= C.W, w + ": the fields changed are known")
        for b in list(C.rel):
            for f in list(C.rel[b]):
                if not (m.prot.get(b, frozenset()) & m.prot.get(f, frozenset())): C.rel[b].pop(f)
        m.acc = {}
        for what, g, weak in C.goals(st): ctx.oblige(st, g, "%s constructed: %s" % (w, what))
        def real(op, f, rem):
            W = "%s.%s(%s)" % (w, op, f); thrown = []
            def check(before, x, r, g, n):
                ctx.require(not m.held(x), W + (": every lock is released" if x.kind == "ret" else ": every lock is released when an exception is thrown"))
                if x.kind == "ret": holds(ctx, ex, x, P(r), g, n, W + ": the C function's result for exactly the data given")
                else: thrown.append(x)
                for what, gg, weak in C.goals(x): ctx.oblige(x, gg, "%s%s: %s" % (W, "" if x.kind == "ret" else " (exception)", what))
            base_call(ctx, ex, C.arbitrary(), p, spec, lens, op, f, rem, check, kinds=("ret", "throw"), mon=m)
            ctx.require(bool(thrown), W + ": exceptional outcomes are covered", "vacuity")
        everything(real)
        def reach(a, seen):
            return any(y == a or (y not in seen and reach_(y, a, seen | {y})) for x, y in m.edges if x == a)
        def reach_(x, a, seen): return any(z == a or (z not in seen and reach_(z, a, seen | {z})) for y, z in m.edges if y == x)
        ctx.require(not any(reach(a, set()) for a, b in m.edges), w + ": locks are acquired in one order")
    return Unit("C08 %s%s shared between threads" % (spec[0], spec[3] or ""), go)
def c08():
    from . import frames
    return [u_monitor(s) for s in BASES] + [Unit("C08 frames of the C encoders and decoders", lambda ctx: frames.u_frames(ctx, ("pgfe_encode_base", "pgfe_decode_base")))]

# ------------------------------------------------------------------ every public operation exists in the built library
LINKS = {
"c05": """#include "libpgfe/sequential_data.hpp"
#include "libpgfe/utils.hpp"
using namespace libpgfe;
void pgv_link(SequentialData &a, const SequentialData &c, const unsigned char *b, const char *cs, std::string s, size_t n, std::ostream &os) {
  SequentialData d, e(&c), f(c), g(std::move(a)), h(b, n), i(cs), j(s);
  d.to_str(true); d.to_str(); c.hex_str(); c.to_pgfe_seq(); c.to_pgfe_seq(n); d.trim(); d.trim_left(); d.trim_right(); d.trim_(); d.trim_left_(); d.trim_right_(); os << c;
  utils::to_sequential_data(b, n); utils::to_sequential_data(cs); utils::to_sequential_data(s); utils::sequential_data::from_hex_string(cs); utils::sequential_data::from_hex_string(s);
}
""",
"c04": """#include "libpgfe/fishes/blowfish.hpp"
using namespace libpgfe;
void pgv_link(SequentialData &d, const unsigned char *b, const char *cs, std::string s, size_t n) {
  Blowfish k(b, n), l(cs), m(s), o(d); k.encrypt(b, n); k.encrypt(cs); k.encrypt(s); k.encrypt(d); k.decrypt(b, n); k.decrypt(cs); k.decrypt(s); k.decrypt(d);
}
""",
"c01": """#include "libpgfe/hashes/hash_encoder.hpp"
using namespace libpgfe;
void pgv_link(SequentialData &d, const unsigned char *b, const char *cs, std::string s, size_t n) {
  HashEncoder e(SHA256); e.update(b, n); e.update(cs); e.update(s); e.update(d); e.get_digest(); e.get_digest(n); e.reset(); e.digest_size(); e.block_size(); e.algorithm();
  AbstractHashEncoder *a = new HashEncoder(MD5); delete a;
}
""",
"c02": """#include "libpgfe/hmac/hmac_encoder.hpp"
using namespace libpgfe;
void pgv_link(SequentialData &d, const unsigned char *b, const char *cs, std::string s, size_t n) {
  HMACEncoder e(SHA256, b, n), f(SHA1, cs), g(SHA1, s), h(SHA1, d); e.update(b, n); e.update(cs); e.update(s); e.update(d); e.get_digest(); e.digest_size(); e.block_size(); e.algorithm();
}
""",
"c03": """#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
using namespace libpgfe;
void pgv_link(SequentialData &d, const unsigned char *b, const char *cs, std::string s, size_t n) {
  Base16 e; Base32 f, g(true); Base64 h, i(true); AbstractBaseEncoding *a = &e; a->encode(b, n); a->encode(cs); a->encode(s); a->encode(d); a->decode(cs); a->decode(s);
  a->unit_size(); a->chunk_size(); a->bit_size(); a->alphabet_size(); g.is_hex_mode(); i.is_url_safe_mode();
}
""",
"c06": """#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
using namespace libpgfe;
template <class O> void use(O &o, SequentialData &d, const unsigned char *b, const char *cs, std::string s, size_t n) {
  o.set_secret(b, n); o.set_secret(cs); o.set_secret(s); o.set_secret(d); o.set_secret(cs, true); o.set_secret(s, true); o.set_secret_from_base32(cs); o.set_secret_from_base32(s);
  o.set_counter(n); o.generate(); o.generate(8); o.generate_str(); o.generate_str(8);
}
void pgv_link(SequentialData &d, const unsigned char *b, const char *cs, std::string s, size_t n) {
  HOTP h, h1(SHA256), h2(b, n), h3(cs, SHA1), h4(s), h5(d); TOTP t, t1(60), t2(b, n), t3(cs, 60, SHA1), t4(s), t5(d); use(h, d, b, cs, s, n); use(t, d, b, cs, s, n);
  t.interval(); t.set_interval(30); t.initial_time(); t.set_initial_time(0); t.update_time(); t.remaining_time();
  AbstractOTP *a = &h; a->set_secret(b, n); a->set_secret(cs); a->set_secret(s); a->set_secret(d); a->set_counter(n); a->generate(); a->generate_str();
}
""",
"c07": """#include "libpgfe/generic.hpp"
using namespace libpgfe;
pgfe_algorithm_choice pgv_link(const char *cs, std::string s) { _algstr(cs); return _algstr(s); }
size_t pgv_link2() { return pgfe_digest_length.at("sha1"_pgfe_alg) + pgfe_block_length.at("sha256"_pgfe_alg); }
"""}
def u_link(cid):
    def go(ctx):
        m = ir.add_text(ctx.prog, "link.cpp", LINKS[cid]); lib = [x for x in ctx.prog.mods if x is not m and not x.path.endswith("user.cpp")]
        names = [n for n in list(m.decls) + [g for g, v in m.globals.items() if v.external] if "libpgfe" in n or n.startswith("pgfe_")]
        ctx.require(len(names) > 0, "the program uses the library", "vacuity"); stl.load_names(ctx.prog)
        for n in names:
            ok = any(n in x.aliases or (n in x.funcs and not x.funcs[n].static and (n not in x.weak or n in x.vt)) or (n in x.globals and not x.globals[n].external) for x in lib)
            ctx.require(ok, "a program can link to " + (stl.dem(n) if n.startswith("_Z") else n))
    return Unit("%s operations can be linked to" % cid.upper(), go)

def units(which, prog):
    out = []
    for w in which: out += {"c01": c01, "c02": c02, "c03": c03, "c04": c04, "c05": c05, "c06": c06, "c07": c07, "c08": c08}[w]() + ([u_link(w)] if w in LINKS else [])
    return out
