"""Extraction of the real code: clang -> LLVM IR text -> objects the verifier executes.

Nothing is dropped: every function body of the compiled translation unit is kept; the only
transformations before verification are LLVM's own mem2reg, simplifycfg and loop-simplify."""
import re, os, subprocess, hashlib, glob

REPO = os.environ.get("PGV_REPO", "/repo")
CACHE = os.environ.get("PGV_CACHE") or "/tmp/pgv_cache.%d" % os.getuid()

class IRError(Exception): pass

# ------------------------------------------------------------------ types
# ('i',w) ('ptr',) ('void',) ('arr',n,t) ('struct',(t..),packed) ('named',name) ('double',) ('label',)('meta',) ('fn',..)
class Module:
    def __init__(self, path):
        self.path = path; self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.aliases = {}; self.weak = set(); self.vt = set()
    def resolve(self, t):
        while t[0] == "named":
            t = self.types[t[1]]
        return t
    def size(self, t):
        t = self.resolve(t); k = t[0]
        if k == "i": return (t[1] + 7) // 8 if t[1] <= 64 else 16
        if k == "ptr" or k == "double": return 8
        if k == "float": return 4
        if k == "arr": return t[1] * self.size(t[2])
        if k == "struct": return self.layout(t)[1]
        raise IRError("size %r" % (t,))
    def align(self, t):
        t = self.resolve(t); k = t[0]
        if k == "arr": return self.align(t[2])
        if k == "struct":
            if t[2]: return 1
            return max([1] + [self.align(x) for x in t[1]])
        return self.size(t)
    def layout(self, t):
        t = self.resolve(t)
        off = 0; offs = []
        for x in t[1]:
            if not t[2]:
                a = self.align(x); off = (off + a - 1) // a * a
            offs.append(off); off += self.size(x)
        if not t[2]:
            a = self.align(t); off = (off + a - 1) // a * a
        return offs, off

class Global:
    __slots__ = ("name", "ty", "init", "const", "external", "mod")
class Func:
    __slots__ = ("name", "ret", "params", "blocks", "order", "mod", "vararg", "preds", "idom", "ipdom", "loops", "static", "_info", "sret")
class Block:
    __slots__ = ("name", "phis", "ins", "term")
class Ins:
    __slots__ = ("op", "res", "ty", "a", "x", "line")
    def __repr__(self): return "%s = %s %r %r %r" % (self.res, self.op, self.ty, self.a, self.x)

TOK = re.compile(r'\s*(?:(c"(?:[^"])*")|([%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|("[^"]*")|(-?\d+\.\d+e[+-]\d+)|(0x[0-9A-Fa-f]+)|(-?\d+)|(\.\.\.)|([A-Za-z_][\w.$-]*)|(![\w.]*)|(#\d+)|([][(){}<>,=*:|^]))')

def lex(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise IRError("lex: " + s[i:i + 60])
        out.append(m.group(0).strip()); i = m.end()
    return out

PARAM_ATTR = {"noundef", "nonnull", "noalias", "nocapture", "writeonly", "readonly", "signext", "zeroext", "immarg",
              "returned", "readnone", "dead_on_unwind", "writable", "inreg", "noreturn", "nofree", "allocptr", "nest", "nounwind"}
PAREN_ATTR = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "captures", "range"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "reassoc", "afn", "disjoint", "nneg", "volatile", "atomic"}

class P:
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.m = mod
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x: self.i += 1; return True
        return False
    def expect(self, x):
        if not self.eat(x): raise IRError("expected %s at %r" % (x, self.t[self.i:self.i + 8]))
    def type(self):
        x = self.next()
        if re.fullmatch(r"i\d+", x): t = ("i", int(x[1:]))
        elif x == "ptr": t = ("ptr",)
        elif x in ("void", "double", "label", "float", "token"): t = (x,)
        elif x == "metadata": t = ("meta",)
        elif x == "[":
            n = int(self.next()); self.expect("x"); e = self.type(); self.expect("]"); t = ("arr", n, e)
        elif x == "{":
            ts = []
            if not self.eat("}"):
                ts.append(self.type())
                while self.eat(","): ts.append(self.type())
                self.expect("}")
            t = ("struct", tuple(ts), False)
        elif x == "<":
            if self.peek() == "{":
                self.next(); ts = []
                if not self.eat("}"):
                    ts.append(self.type())
                    while self.eat(","): ts.append(self.type())
                    self.expect("}")
                self.expect(">"); t = ("struct", tuple(ts), True)
            else:
                n = int(self.next()); self.expect("x"); e = self.type(); self.expect(">"); t = ("vec", n, e)
        elif x.startswith("%"): t = ("named", x)
        elif x == "opaque": t = ("struct", (), False)
        else: raise IRError("type %r" % x)
        while self.peek() == "(" :     # function type in calls
            self.next(); ps = []; va = False
            while not self.eat(")"):
                if self.eat("..."): va = True
                else: ps.append(self.type())
                self.eat(",")
            t = ("fn", t, tuple(ps), va)
        return t
    def skip_attrs(self):
        sret = None
        while True:
            x = self.peek()
            if x in PARAM_ATTR: self.next()
            elif x in PAREN_ATTR:
                nm = self.next()
                if self.peek() == "(":
                    self.next(); d = 1
                    while d:
                        y = self.next()
                        if y == "(": d += 1
                        elif y == ")": d -= 1
                    if nm == "sret": sret = True
                elif nm == "align": self.next()
            elif x and x.startswith("#"): self.next()
            elif x and x.startswith('"'):
                self.next()
                if self.eat("="): self.next()
            else: return sret
    def value(self, t):
        x = self.next()
        if x[0] == "%": return ("r", x[1:].strip('"'))
        if x[0] == "@": return ("g", x[1:].strip('"'))
        if x == "null": return ("null",)
        if x in ("undef", "poison"): return ("undef",)
        if x == "true": return ("c", 1)
        if x == "false": return ("c", 0)
        if x == "zeroinitializer": return ("zero",)
        if re.fullmatch(r"-?\d+", x): return ("c", int(x))
        if re.fullmatch(r"-?\d+\.\d+e[+-]\d+", x): return ("f", float(x))
        if x.startswith("0x"):
            import struct
            return ("f", struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0])
        if x.startswith('c"'):
            s = x[2:-1]; b = bytearray(); i = 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\": b.append(92); i += 2
                    else: b.append(int(s[i + 1:i + 3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ("bytes", bytes(b))
        if x in ("[", "{") or x == "<":
            pk = False
            if x == "<":
                if self.peek() == "{": self.next(); pk = True
            close = {"[": "]", "{": "}", "<": "}" if pk else ">"}[x]
            vs = []
            while not self.eat(close):
                tt = self.type(); vs.append((tt, self.value(tt))); self.eat(",")
            if pk: self.expect(">")
            return ("agg", vs)
        if x == "getelementptr":
            inr = False
            while self.peek() in FLAGS or self.peek() == "inrange":
                y = self.next()
                if y == "inrange":
                    if self.eat("("):
                        while not self.eat(")"): self.next()
            self.expect("(")
            bt = self.type(); self.expect(",")
            pt = self.type(); pv = self.value(pt); idx = []
            while self.eat(","):
                while self.peek() == "inrange": self.next()
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(")")
            return ("gep", bt, pv, idx)
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext"):
            self.expect("("); st = self.type(); v = self.value(st); self.expect("to"); dt = self.type(); self.expect(")")
            return (x, st, v, dt)
        if x in ("add", "sub"):
            while self.peek() in FLAGS: self.next()
            self.expect("("); st = self.type(); a = self.value(st); self.expect(","); self.type(); b = self.value(st); self.expect(")")
            return (x, st, a, b)
        if x in ("dso_local_equivalent", "no_cfi"): return self.value(t)
        if x == "none": return ("undef",)
        raise IRError("value %r" % x)
    def tv(self):
        t = self.type(); self.skip_attrs(); return t, self.value(t)

def strip_meta(s):
    i = s.find(", !")
    while i >= 0:
        s = s[:i]
        i = s.find(", !")
    j = s.find(" !srcloc")
    return s

LINK = {"private", "internal", "linkonce_odr", "linkonce", "weak", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "unnamed_addr",
        "local_unnamed_addr", "available_externally", "common", "appending", "extern_weak", "thread_local", "protected"}

def parse_module(text, path=""):
    m = Module(path)
    lines = text.split("\n"); i = 0; n = len(lines)
    while i < n:
        s = lines[i]; i += 1
        if not s or s[0] in ";!" or s.startswith(("source_filename", "target ", "attributes", "$", "uselistorder", "module asm")): continue
        if s[0] == "%":
            mm = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = type (.*)$', s)
            m.types[mm.group(1)] = P(lex(mm.group(2)), m).type(); continue
        if s[0] == "@":
            s = strip_meta(s)
            if s.startswith("@_ZTV"): m.vt.update(x.strip('"') for x in re.findall(r'@("[^"]*"|[\w.$-]+)', s))
            p = P(lex(s), m)
            nm = p.next()[1:].strip('"'); p.expect("=")
            g = Global(); g.name = nm; g.external = False; g.const = False; g.mod = m; g.init = None
            alias = False
            while True:
                x = p.peek()
                if x in LINK:
                    if x in ("external", "extern_weak"): g.external = True
                    p.next()
                    if x == "thread_local" and p.peek() == "(":
                        while not p.eat(")"): p.next()
                elif x in ("constant", "global"):
                    g.const = p.next() == "constant"; break
                elif x in ("alias", "ifunc"): p.next(); alias = True; break
                else: raise IRError("global " + s[:120])
            if alias:
                p.type(); p.expect(","); p.type(); v = p.value(("ptr",)); m.aliases[nm] = v[1]; continue
            g.ty = p.type()
            if not g.external:
                g.init = p.value(g.ty)
            m.globals[nm] = g; continue
        if s.startswith("declare"):
            mm = re.search(r'@("[^"]*"|[\w.$-]+)\(', s)
            m.decls[mm.group(1).strip('"')] = s; continue
        if s.startswith("define"):
            body = []
            while lines[i] != "}":
                body.append(lines[i]); i += 1
            i += 1
            f = parse_func(s, body, m); m.funcs[f.name] = f
            continue
        if s.strip() == "": continue
        raise IRError("line " + s[:100])
    return m

def parse_func(head, body, m):
    mm = re.search(r'@("[^"]*"|[\w.$-]+)\(', head)
    j = mm.end(); d = 1
    while d:
        if head[j] == "(": d += 1
        elif head[j] == ")": d -= 1
        j += 1
    head = head[:j]
    p = P(lex(head[len("define"):]), m)
    f = Func(); f.mod = m; f.static = False; f._info = None; lk = False
    while True:
        x = p.peek()
        if x in LINK:
            if x == "internal": f.static = True
            if x in ("linkonce_odr", "linkonce"): lk = True
            p.next()
        elif x in PARAM_ATTR or x in PAREN_ATTR: p.skip_attrs()
        elif x in ("fastcc", "ccc", "coldcc"): p.next()
        else: break
    f.ret = p.type()
    f.name = p.next()[1:].strip('"')
    if lk: m.weak.add(f.name)
    p.expect("("); f.params = []; f.vararg = False; f.sret = None
    while not p.eat(")"):
        if p.eat("..."): f.vararg = True; continue
        t = p.type()
        if p.skip_attrs(): f.sret = len(f.params)
        nm = p.next()[1:].strip('"') if p.peek() and p.peek()[0] == "%" else "%d" % len(f.params)
        f.params.append((nm, t)); p.eat(",")
    f.blocks = {}; f.order = []
    cur = None
    k = 0
    joined = []
    while k < len(body):
        s = body[k]; k += 1
        if re.match(r"\s+(switch|\S+ = landingpad|invoke|\S+ = invoke)\b", s):
            if s.lstrip().startswith("switch"):
                while not s.rstrip().endswith("]") and "]" not in s.split("[")[-1]:
                    s += " " + body[k].strip(); k += 1
            elif "landingpad" in s:
                while k < len(body) and re.match(r"\s+(cleanup|catch|filter)\b", body[k]): s += " " + body[k].strip(); k += 1
            elif "invoke" in s:
                s += " " + body[k].strip(); k += 1
        joined.append(s)
    cnt = 0
    for s in joined:
        s0 = s
        if not s.strip(): continue
        if s[0] != " ":
            mm = re.match(r'("[^"]*"|[-\w.$]+):', s)
            cur = Block(); cur.name = mm.group(1).strip('"'); cur.phis = []; cur.ins = []; cur.term = None
            f.blocks[cur.name] = cur; f.order.append(cur.name); continue
        if cur is None:
            cur = Block(); cur.name = "%entry"; cur.phis = []; cur.ins = []; cur.term = None
            f.blocks[cur.name] = cur; f.order.append(cur.name)
        if s.lstrip().startswith("call void @llvm.dbg"): continue
        s = strip_meta(s)
        ins = parse_ins(lex(s), m, s0)
        if ins.op == "phi": cur.phis.append(ins)
        elif ins.op in ("br", "cbr", "switch", "ret", "unreachable", "invoke", "resume"): cur.term = ins
        else: cur.ins.append(ins)
    return f

def parse_ins(toks, m, line):
    p = P(toks, m)
    I = Ins(); I.res = None; I.x = None; I.line = line.strip()
    if p.peek()[0] == "%":
        I.res = p.next()[1:].strip('"'); p.expect("=")
    op = p.next()
    if op in ("tail", "musttail", "notail"): op = p.next()
    I.op = op
    if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
        fl = []
        while p.peek() in FLAGS: fl.append(p.next())
        I.ty = p.type(); a = p.value(I.ty); p.expect(","); b = p.value(I.ty)
        I.a = (a, b); I.x = tuple(fl)
    elif op == "fneg":
        I.ty = p.type(); I.a = (p.value(I.ty),)
    elif op in ("icmp", "fcmp"):
        while p.peek() in FLAGS: p.next()
        pred = p.next(); I.ty = p.type(); a = p.value(I.ty); p.expect(","); b = p.value(I.ty)
        I.a = (a, b); I.x = pred
    elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"):
        while p.peek() in FLAGS: p.next()
        st = p.type(); v = p.value(st); p.expect("to"); I.ty = p.type(); I.a = (v,); I.x = st
    elif op == "alloca":
        I.ty = p.type(); I.a = (("c", 1),); I.x = ("i", 64)
        while p.eat(","):
            if p.peek() == "align": p.next(); p.next()
            else:
                I.x = p.type(); I.a = (p.value(I.x),)
    elif op == "load":
        while p.peek() in FLAGS: p.next()
        I.ty = p.type(); p.expect(","); pt = p.type(); I.a = (p.value(pt),)
    elif op == "store":
        while p.peek() in FLAGS: p.next()
        I.ty = p.type(); v = p.value(I.ty); p.expect(","); pt = p.type(); I.a = (v, p.value(pt))
    elif op == "getelementptr":
        while p.peek() in FLAGS: p.next()
        I.ty = p.type(); p.expect(","); pt = p.type(); pv = p.value(pt); idx = []
        while p.eat(","):
            it = p.type(); idx.append((it, p.value(it)))
        I.a = (pv,); I.x = idx
    elif op == "select":
        p.type(); c = p.value(("i", 1)); p.expect(","); I.ty = p.type(); a = p.value(I.ty); p.expect(","); p.type(); b = p.value(I.ty)
        I.a = (c, a, b)
    elif op == "phi":
        while p.peek() in FLAGS: p.next()
        I.ty = p.type(); inc = []
        while True:
            p.expect("["); v = p.value(I.ty); p.expect(","); b = p.next()[1:].strip('"'); p.expect("]"); inc.append((v, b))
            if not p.eat(","): break
        I.x = inc; I.a = ()
    elif op == "br":
        if p.eat("label"):
            I.ty = None; I.a = (); I.x = (p.next()[1:].strip('"'),)
        else:
            p.type(); c = p.value(("i", 1)); p.expect(","); p.expect("label"); a = p.next()[1:].strip('"'); p.expect(","); p.expect("label"); b = p.next()[1:].strip('"')
            I.op = "cbr"; I.a = (c,); I.x = (a, b); I.ty = None
    elif op == "switch":
        I.ty = p.type(); v = p.value(I.ty); p.expect(","); p.expect("label"); d = p.next()[1:].strip('"'); p.expect("["); cs = []
        while not p.eat("]"):
            p.type(); c = p.value(I.ty); p.expect(","); p.expect("label"); cs.append((c[1], p.next()[1:].strip('"')))
        I.a = (v,); I.x = (d, cs)
    elif op == "ret":
        I.ty = p.type(); I.a = () if I.ty[0] == "void" else (p.value(I.ty),)
    elif op in ("unreachable",):
        I.ty = None; I.a = ()
    elif op in ("call", "invoke"):
        while p.peek() in FLAGS or p.peek() in ("fastcc", "ccc"): p.next()
        p.skip_attrs()
        t = p.type(); callee = p.value(("ptr",)); p.expect("("); args = []
        while not p.eat(")"):
            at = p.type()
            if at[0] == "meta":
                p.next()
                while p.peek() not in (",", ")"): p.next()
                args.append((at, ("undef",)))
            else:
                p.skip_attrs(); args.append((at, p.value(at)))
            p.eat(",")
        I.ty = t[1] if t[0] == "fn" else t
        I.a = (callee,); I.x = [args, None, None]
        if op == "invoke":
            while p.next() != "to": pass
            p.expect("label"); n = p.next()[1:].strip('"'); p.expect("unwind"); p.expect("label"); u = p.next()[1:].strip('"')
            I.x = [args, n, u]
    elif op in ("extractvalue",):
        I.ty = p.type(); v = p.value(I.ty); ix = []
        while p.eat(","): ix.append(int(p.next()))
        I.a = (v,); I.x = ix
    elif op == "insertvalue":
        I.ty = p.type(); v = p.value(I.ty); p.expect(","); et = p.type(); e = p.value(et); ix = []
        while p.eat(","): ix.append(int(p.next()))
        I.a = (v, e); I.x = (et, ix)
    elif op == "landingpad":
        I.ty = p.type(); I.a = (); I.x = p.t[p.i:]
    elif op == "resume":
        I.ty = p.type(); I.a = (p.value(I.ty),)
    elif op == "freeze":
        I.ty = p.type(); I.a = (p.value(I.ty),)
    else:
        I.ty = None; I.a = (); I.x = toks      # unsupported: reported if executed
    return I

# ------------------------------------------------------------------ CFG analyses
def succs(b):
    t = b.term
    if t.op == "br": return list(t.x)
    if t.op == "cbr": return list(t.x)
    if t.op == "switch": return [t.x[0]] + [l for _, l in t.x[1]]
    if t.op == "invoke": return [t.x[1], t.x[2]]
    return []

def _doms(nodes, entry, preds):
    """immediate dominators (simple iterative)"""
    order = []; seen = set()
    succ = {n: [] for n in nodes}
    for n in nodes:
        for q in preds[n]: succ[q].append(n)
    st = [(entry, iter(succ[entry]))]; seen.add(entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen: seen.add(s); st.append((s, iter(succ[s]))); break
        else: order.append(n); st.pop()
    order.reverse(); num = {n: i for i, n in enumerate(order)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for n in order[1:]:
            new = None
            for q in preds[n]:
                if q in idom and q in num:
                    if new is None: new = q
                    else:
                        a, b = q, new
                        while a != b:
                            while num[a] > num[b]: a = idom[a]
                            while num[b] > num[a]: b = idom[b]
                        new = a
            if new is not None and idom.get(n) != new: idom[n] = new; ch = True
    return idom

class Loop:
    __slots__ = ("header", "body", "exits", "parent", "latches")

def analyse(f):
    if f._info: return f._info
    preds = {n: [] for n in f.order}
    for n in f.order:
        for s in succs(f.blocks[n]): preds[s].append(n)
    entry = f.order[0]
    idom = _doms(f.order, entry, preds)
    # post-dominators with virtual exit
    EX = "<exit>"
    nodes = list(f.order) + [EX]
    rpreds = {n: [] for n in nodes}     # preds in reversed graph = successors
    for n in f.order:
        ss = succs(f.blocks[n])
        if not ss: rpreds[n].append(EX)
        for s in ss: rpreds[n].append(s)
    ipdom = _doms(nodes, EX, rpreds)
    # natural loops
    def dominates(a, b):
        while True:
            if a == b: return True
            if b not in idom or idom[b] == b: return False
            b = idom[b]
    loops = {}
    for n in f.order:
        if n not in idom: continue
        for s in succs(f.blocks[n]):
            if dominates(s, n):
                L = loops.setdefault(s, Loop()); 
                if not hasattr(L, "body"): L.header = s; L.body = {s}; L.latches = []; L.parent = None
                L.latches.append(n)
                st = [n]
                while st:
                    x = st.pop()
                    if x not in L.body:
                        L.body.add(x); st.extend(preds[x])
    for L in loops.values():
        L.exits = set()
        for b in L.body:
            for s in succs(f.blocks[b]):
                if s not in L.body: L.exits.add((b, s))
        best = None
        for M in loops.values():
            if M is not L and L.header in M.body and L.body <= M.body:
                if best is None or len(M.body) < len(best.body): best = M
        L.parent = best
    f._info = (preds, idom, ipdom, loops)
    return f._info

# ------------------------------------------------------------------ the program
class Program:
    """all translation units of the library"""
    def __init__(self): self.mods = []; self.funcs = {}; self.globals = {}; self.errors = []
    def add(self, m):
        self.mods.append(m)
        for f in m.funcs.values():
            if not f.static: self.funcs.setdefault(f.name, f)
        for g in m.globals.values():
            if not g.external: self.globals.setdefault(g.name, g)
    def func(self, name, mod=None):
        if mod is not None:
            name = mod.aliases.get(name, name)
            if name in mod.funcs: return mod.funcs[name]
        f = self.funcs.get(name)
        if f is None:
            for m in self.mods:
                if name in m.aliases: return self.func(m.aliases[name], m)
        return f
    def find(self, name):
        """a function by source name, also when static"""
        f = self.func(name)
        if f: return f
        c = [m.funcs[name] for m in self.mods if name in m.funcs]
        return c[0] if len(c) == 1 else None

def sources(repo=None):
    repo = repo or REPO
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(repo, "src"))):
        for f in sorted(fs):
            if f.endswith((".c", ".cpp")): out.append(os.path.join(d, f))
    return out

def srchash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    for base in ("src", "include"):
        for d, ds, fs in sorted(os.walk(os.path.join(repo, base))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, repo).encode() + b"\0"); h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()[:24]

def compile_one(args):
    src, repo, out = args
    if src.endswith(".c"): cmd = ["clang", "-include", "stdarg.h"]
    else: cmd = ["clang++", "-std=c++14"]
    cmd += ["-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-DNDEBUG",
            "-I" + repo + "/include", "-I" + repo + "/src", "-Wno-everything", src, "-o", "-"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: return src, None, r.stderr.decode(errors="replace")
    r2 = subprocess.run(["opt", "-S", "-passes=mem2reg,loop-simplify"], input=r.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r2.returncode: return src, None, r2.stderr.decode(errors="replace")
    return src, r2.stdout.decode(), ""

def load(repo=None, want=None):
    """compile (from the current tree) and parse; want: predicate on relative path"""
    from multiprocessing.pool import ThreadPool
    repo = repo or REPO
    srcs = [s for s in sources(repo) if want is None or want(os.path.relpath(s, repo))]
    prog = Program()
    with ThreadPool(8) as tp:
        res = tp.map(compile_one, [(s, repo, None) for s in srcs])
    for s, txt, err in res:
        if txt is None:
            prog.errors.append((s, err)); continue
        m = parse_module(txt, os.path.relpath(s, repo))
        prog.add(m)
    return prog

def add_text(prog, name, src, repo=None):
    """a further translation unit (C++ source text) compiled against the current headers"""
    import tempfile
    repo = repo or REPO
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, name); open(p, "w").write(src)
        _, txt, err = compile_one((p, repo, None))
    if txt is None: raise IRError("%s: %s" % (name, err[:400]))
    m = parse_module(txt, name); prog.add(m); return m
