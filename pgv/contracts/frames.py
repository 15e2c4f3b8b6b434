"""S01: what a function may read and write (assigns/reads clauses), by provenance of every memory access.

Every pointer a function dereferences is traced to the objects it can point into: a parameter's object, a local of the
function, a global, the objects behind a variadic argument.  The rules are flow-insensitive and per function: a caller sees a
callee's clause, not its body; the clauses of helpers are computed bottom-up (least fixpoint), those of the library's C
functions are written down here.  Staying inside the object pointed to is the bounds obligation of the other properties' units."""
from .common import *

P_ = lambda i: ("param", i)
# external C functions: (parameters written, parameters read, result points into)
EXT = {"strlen": ((), (0,), None), "memcmp": ((), (0, 1), None), "strcmp": ((), (0, 1), None), "sprintf": ((0,), (1, "va"), None), "snprintf": ((0,), (2, "va"), None), "fread": ((0, 3), (3,), None),
       "time": ((0,), (), None), "printf": (("stdout",), (0, "va"), None), "memcpy": ((0,), (1,), 0), "memmove": ((0,), (1,), 0), "memset": ((0,), (), 0), "strcpy": ((0,), (1,), 0), "strncpy": ((0,), (1,), 0),
       "memchr": ((), (0,), 0), "strchr": ((), (0,), 0), "strrchr": ((), (0,), 0), "strnlen": ((), (0,), None), "toupper": ((), (), None), "tolower": ((), (), None), "abs": ((), (), None), "putchar": (("stdout",), (), None)}

class Summary:
    def __init__(s): s.w = {}; s.r = {}; s.ret = set(); s.st = {}      # base -> origin line; pointers stored: base -> set of bases
    def size(s): return len(s.w) + len(s.r) + len(s.ret) + sum(map(len, s.st.values()))
class Analysis:
    def __init__(a, prog):
        a.prog = prog; a.fn = {}; a.mods = prog.mods
        for m in prog.mods:
            for n, f in m.funcs.items(): a.fn[(m, n) if f.static else n] = f
        a.sum = {k: Summary() for k in a.fn}; a.taken = set()
        for f in a.fn.values():
            for b in f.blocks.values():
                for i in b.phis + b.ins + [b.term]:
                    for t, v in a.operands(i):
                        for g in gnames(v):
                            if a.lookup(f.mod, g): a.taken.add(a.key(f.mod, g))
        for m in prog.mods:
            for g in m.globals.values():
                if g.init is not None:
                    for n in gnames(g.init):
                        if a.lookup(m, n): a.taken.add(a.key(m, n))
        ch = True; a.rounds = 0
        while ch:
            ch = False; a.rounds += 1
            for k, f in a.fn.items():
                n = a.sum[k].size(); a.function(k, f); ch |= a.sum[k].size() != n
    def key(a, m, n): return (m, n) if (m, n) in a.fn else n
    def lookup(a, m, n): n = m.aliases.get(n, n); return a.fn.get((m, n)) or a.fn.get(n)
    def operands(a, i):
        """value operands that are not called functions"""
        if i is None: return []
        if i.op in ("call", "invoke"): return [(t, v) for t, v in i.x[0]]
        if i.op == "phi": return [(i.ty, v) for v, _ in i.x]
        if i.op == "insertvalue": return [(i.ty, i.a[0]), (i.x[0], i.a[1])]
        return [(i.ty, v) for v in i.a]
    def globinit(a, m, n):
        g = m.globals.get(n)
        if g is None or g.init is None:
            for m2 in a.mods:
                g = m2.globals.get(n)
                if g is not None and g.init is not None: break
            else: return set()
        return {("global", x) for x in gnames(g.init)}
    def function(a, k, f):
        S = a.sum[k]; env = {n: {P_(i)} if t[0] == "ptr" else set() for i, (n, t) in enumerate(f.params)}; con = {}
        m = f.mod; cur = [None]
        def val(v):
            t = v[0]
            if t == "r": return env.get(v[1], set())
            if t == "g": return {("global", m.aliases.get(v[1], v[1]))}
            if t == "gep": return val(v[2])
            if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext"): return val(v[2])
            if t in ("add", "sub"): return val(v[2]) | val(v[3])
            if t == "agg": return set().union(*[val(x) for _, x in v[1]]) if v[1] else set()
            return set()
        def contents(bs):
            r = set()
            for b in bs:
                r |= con.get(b, set())
                if b[0] == "global": r |= a.globinit(m, b[1])
                elif b[0] == "varea": r.add(("vararg", 0))
                elif b[0] in ("param", "vararg"): r.add(("in", b))
                elif b[0] == "in": r.add(b)
            return r
        def store(bs, vs):
            for b in bs:
                if vs - con.get(b, set()): con.setdefault(b, set()).update(vs)
        def eff(d, bs, line):
            for b in bs:
                if b[0] in ("alloca", "varea"): continue
                d.setdefault(b, "%s: %s" % (f.name, line[:160]))
        def wr(bs, line): eff(S.w, bs, line)
        def rdd(bs, line): eff(S.r, bs, line)
        def call(i):
            args = [val(v) for _, v in i.x[0]]; c = i.a[0]
            names = {c[1]} if c[0] == "g" else set()
            if c[0] != "g":
                bs = val(c); fs = {b[1] for b in bs if b[0] == "global"}
                if bs and all(b[0] == "global" for b in bs): names = fs
                else: names = {x if isinstance(x, str) else x for x in a.taken if len(a.fn[x].params) == len(args)}
                if not names: wr({("unknown", "call through a pointer")}, i.line); return set()
            ret = set()
            for n in names:
                kk = n if not isinstance(n, str) else a.key(m, m.aliases.get(n, n))
                g = a.fn.get(kk)
                if g is None:
                    ret |= ext(n, args, i); continue
                q = a.sum[kk]; np = len(g.params); va = set().union(*args[np:]) if len(args) > np else set()
                def mp(b):
                    if b[0] == "param": return args[b[1]] if b[1] < len(args) else {("unknown", "missing argument")}
                    if b[0] == "in":
                        r = contents(mp(b[1])); n = -1
                        while n != len(r): n = len(r); r = r | contents(r)
                        return r
                    if b[0] == "vararg": return va
                    if b[0] == "varea": return set()
                    return {b}
                for b, l in list(q.w.items()):
                    for x in mp(b):
                        if x[0] != "alloca": S.w.setdefault(x, l)
                for b, l in list(q.r.items()):
                    for x in mp(b):
                        if x[0] != "alloca": S.r.setdefault(x, l)
                for b, vs in list(q.st.items()): store(mp(b), set().union(*[mp(v) for v in vs]) if vs else set())
                for b in list(q.ret): ret |= mp(b)
            return ret
        def ext(n, args, i):
            if n.startswith("llvm."):
                if n.startswith(("llvm.memcpy", "llvm.memmove")): wr(args[0], i.line); rdd(args[1], i.line); store(args[0], contents(args[1])); return args[0]
                if n.startswith("llvm.memset"): wr(args[0], i.line); return args[0]
                if n.startswith("llvm.va_start"): wr(args[0], i.line); store(args[0], {("varea", 0)}); return set()
                if n.startswith("llvm.va_copy"): wr(args[0], i.line); store(args[0], contents(args[1])); return set()
                if n.startswith("llvm.stacksave"): return set()
                if n.startswith(("llvm.stackrestore", "llvm.va_end", "llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.donothing")): return set()
                return set().union(*args) if args else set()
            if n not in EXT: wr({("unknown", "call of %s" % n)}, i.line); return set()
            w, r, res = EXT[n]
            for p in w: wr({("unknown", "stdout")} if p == "stdout" else args[p], i.line)
            for p in r: rdd(set().union(*args[1:]) if p == "va" else args[p], i.line)
            return args[res] if res is not None else set()
        ch = True
        while ch:
            n0 = sum(map(len, env.values())) + sum(map(len, con.values()))
            for bn in f.order:
                b = f.blocks[bn]
                for i in b.phis + b.ins + [b.term]:
                    op = i.op; r = set()
                    if op == "alloca": r = {("alloca", i.res)}
                    elif op == "load":
                        p = val(i.a[0]); rdd(p, i.line)
                        if i.ty[0] in ("ptr", "struct", "named", "arr"): r = contents(p)
                        elif i.ty == ("i", 64): r = {x for q in p if q[0] == "alloca" for x in con.get(q, ())}
                    elif op == "store":
                        p = val(i.a[1]); wr(p, i.line)
                        if i.ty[0] in ("ptr", "struct", "named", "arr") or i.ty == ("i", 64): store(p, {x for x in val(i.a[0])})
                    elif op in ("call", "invoke"): r = call(i)
                    elif op == "phi": r = set().union(*[val(v) for v, _ in i.x])
                    elif op == "select": r = val(i.a[1]) | val(i.a[2])
                    elif op == "getelementptr": r = val(i.a[0])
                    elif op in ("icmp", "fcmp", "landingpad"): r = set()
                    elif op == "ret":
                        if i.a: S.ret |= {x for x in val(i.a[0]) if x[0] != "alloca"}
                    elif op == "sub" and val(i.a[0]) and val(i.a[1]): r = set()          # a pointer difference
                    elif op == "inttoptr": r = val(i.a[0]) or {("unknown", "an address made from an integer")}
                    elif i.a and op in ("add", "sub", "and", "or", "xor", "shl", "lshr", "ashr", "mul", "udiv", "urem", "sdiv", "srem", "ptrtoint", "inttoptr", "bitcast", "zext", "sext", "trunc", "freeze", "insertvalue", "extractvalue"):
                        r = set().union(*[val(v) for v in i.a if isinstance(v, tuple)])
                        if i.ty[0] == "i" and i.ty[1] < 64: r = set()
                    elif op not in ("br", "cbr", "switch", "unreachable", "resume") and not i.ty: wr({("unknown", "instruction")}, i.line)
                    if i.res is not None and r - env.get(i.res, set()): env[i.res] = env.get(i.res, set()) | r
            ch = sum(map(len, env.values())) + sum(map(len, con.values())) != n0
        for b, vs in con.items():
            if b[0] != "alloca": S.st.setdefault(b, set()).update(v for v in vs if v[0] != "alloca")
            if b[0] != "alloca" and any(v[0] == "alloca" for v in vs): S.w.setdefault(("unknown", "a local's address is left in the caller's memory"), f.name)
def gnames(v):
    if not isinstance(v, tuple): return set()
    if v[0] == "g": return {v[1]}
    if v[0] == "gep": return gnames(v[2])
    if v[0] in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext"): return gnames(v[2])
    if v[0] in ("add", "sub"): return gnames(v[2]) | gnames(v[3])
    if v[0] == "agg": return set().union(*[gnames(x) for _, x in v[1]]) if v[1] else set()
    return set()

HASH = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256", "sha3_224", "sha3_256", "sha3_384", "sha3_512"]
XOF = ["shake128", "shake256", "rawshake128", "rawshake256"]
def assigns():
    """C function -> (parameters it may write, what it may touch besides its parameters' objects and constants)"""
    A = {}
    for h in HASH + XOF:
        A.update({"pgfe_%s_init" % h: (0,), "pgfe_%s_update" % h: (0,), "pgfe_%s_digest" % h: (0, 1), "pgfe_%s_encode" % h: (2,), "pgfe_%s_encode_default" % h: (1,), "pgfe_%s_encode_f" % h: (0, 1), "pgfe_%s_encode_multiple" % h: (0,)})
    for h in HASH: A.update({"pgfe_hmac_%s_init" % h: (0,), "pgfe_hmac_%s_set_key" % h: (0,), "pgfe_hmac_%s_update" % h: (0,), "pgfe_hmac_%s_digest" % h: (0, 1), "pgfe_hmac_%s" % h: (4,)})
    A.update({"pgfe_hmac": (5,), "pgfe_blowfish_init": (0,), "pgfe_blowfish_encrypt_unit": (1,), "pgfe_blowfish_decrypt_unit": (1,), "pgfe_blowfish_encrypt": (3,), "pgfe_blowfish_decrypt": (3,)})
    A.update({"pgfe_hotp_generic": (), "pgfe_hotp": (), "pgfe_hotp_4digits": (), "pgfe_hotp_6digits": (), "pgfe_hotp_8digits": ()})
    A.update({"pgfe_totp_generic": (6,), "pgfe_totp": (4,), "pgfe_totp_4digits": (3,), "pgfe_totp_6digits": (3,), "pgfe_totp_8digits": (3,)})
    for b in ("base16", "base32", "base32hex", "base64", "base64_url"): A["pgfe_encode_" + b] = (2,)
    for b in ("base16", "base32", "base32hex", "base64"): A["pgfe_decode_" + b] = (1,)
    A.update({"pgfe_hash_to_hex_string": (2,), "pgfe_hex_string_to_hash": (1,), "pgfe_hash_string_clean": (1,), "pgfe_hash_string_clean_": (0,), "pgfe_hash_length": (), "pgfe_print_hash": ("stdout",)})
    return A
class CPart:
    def __init__(s, prog): s.mods = [m for m in prog.mods if m.path.endswith(".c")]
def globals_of(prog, name):
    """[(global, written)] a C function touches, besides constants"""
    if not hasattr(prog, "frame_sums"): prog.frame_sums = Analysis(CPart(prog))
    an = prog.frame_sums; f = an.fn.get(name); mut = {g.name for m in prog.mods for g in m.globals.values() if not g.const}
    if f is None: return []
    q = an.sum[an.key(f.mod, name)]; w = {b[1] for b in q.w if b[0] == "global"}
    return [(g, g in w) for g in sorted(w | {b[1] for b in q.r if b[0] == "global"}) if g in mut]
def u_frames(ctx, only=None):
    """only: prefix of the functions asked about; their globals are then the caller's business"""
    prog = CPart(ctx.prog); an = Analysis(prog); A = {k: v for k, v in assigns().items() if only is None or k.startswith(only)}; mut = {}; written = {}
    for k, q in an.sum.items():
        for b, l in q.w.items():
            if b[0] == "global": written.setdefault(b[1], l)
    for m in prog.mods:
        for g in m.globals.values():
            if not g.const and not g.external: mut[g.name] = g
    for n in sorted(A):
        f = ctx.func(n); k = an.key(f.mod, n); q = an.sum[k]; ctx.funcs.add(n); W = {P_(i) for i in A[n] if isinstance(i, int)} | ({("unknown", "stdout")} if "stdout" in A[n] else set())
        for b, l in sorted(q.w.items(), key=repr):
            if only and b[0] == "global": continue
            ctx.require(b in W, "%s writes only %s%s" % (n, ", ".join("parameter %s" % i for i in A[n]) or "its own locals", "" if b in W else "; but also %s (%s)" % (show(b), l)), "assigns", "provenance")
        for b, l in sorted(q.r.items(), key=repr):
            ok = b[0] in ("param", "vararg") or b[0] == "global" and (b[1] not in written or only is not None)
            ctx.require(ok, "%s reads only its parameters' objects and constants%s" % (n, "" if ok else "; but also %s (%s)" % (show(b), l)), "reads", "provenance")
        for b, vs in sorted(q.st.items(), key=repr):
            bad = [v for v in vs if v[0] != "in" and not (v[0] == "param" and not isptr(f, v[1]))]
            ctx.require(not bad, "%s leaves no pointer behind in %s%s" % (n, show(b), "" if not bad else ": " + show(bad[0])), "assigns", "provenance")
        ctx.require(not any(isinstance(x, tuple) and x[0] == "param" and f.ret[0] == "ptr" for x in q.ret), "%s hands out no pointer" % n, "assigns", "provenance")
    for g in sorted(set(mut) | set(written)) if only is None else []:
        ok = g not in written
        ctx.require(ok, "no function writes the global %s%s" % (g, "" if ok else "; but: " + written[g]), "globals", "provenance")
    ctx.loops.append("least fixpoint of %d clauses after %d rounds" % (len(an.fn), an.rounds))
def isptr(f, i): return f.params[i][1][0] == "ptr"
def show(b):
    if b[0] == "param": return "parameter %d" % b[1]
    if b[0] == "in": return "memory pointed to from " + show(b[1])
    if b[0] == "global": return "the global " + b[1]
    if b[0] == "vararg": return "a variadic argument's object"
    return str(b[1])
def units(which, prog): return [Unit("frames of the C functions", u_frames)]
