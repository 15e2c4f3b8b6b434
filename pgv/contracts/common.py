"""Units of proof, the parallel runner, struct layouts, common state builders and frame checks."""
import os, sys, time, subprocess, traceback, multiprocessing, re
from .. import ir, terms as T, smt, exec as X
from ..terms import const, eq, ne, ite, not_, and_, or_, ult, ule, mask, TRUE, FALSE
from ..mem import *
from ..exec import LoopFail, State, Executor, Unsupported, Budget, LoopUndecided, Throw, Fork

# ------------------------------------------------------------------ struct layouts
_lay = {}
class LayoutError(Exception): pass
def layout(header, struct, fields):
    """{field: (offset, size)}, '' -> total size ; asked from the compiler on the current headers"""
    key = (header, struct, tuple(fields))
    if key in _lay: return _lay[key]
    src = "#include <stddef.h>\n#include <stdarg.h>\n#include <stdio.h>\n#include \"%s\"\n" % header
    src += "unsigned long sz_all = sizeof(struct %s);\n" % struct
    for f in fields:
        src += "unsigned long of_%s = offsetof(struct %s, %s), sz_%s = sizeof(((struct %s *)0)->%s);\n" % (f, struct, f, f, struct, f)
    r = subprocess.run(["clang", "-xc", "-S", "-emit-llvm", "-O0", "-I" + ir.REPO + "/include", "-I" + ir.REPO + "/src", "-Wno-everything", "-", "-o", "-"],
                       input=src.encode(), capture_output=True)
    if r.returncode: raise LayoutError(r.stderr.decode(errors="replace")[:500])
    g = {m.group(1): int(m.group(2)) for m in re.finditer(r"@(\w+) = .*global i64 (\d+)", r.stdout.decode())}
    out = {"": g["sz_all"]}
    for f in fields: out[f] = (g["of_" + f], g["sz_" + f])
    _lay[key] = out
    return out

def macro(header, names):
    """integer values of macros/enumerators"""
    src = "#include <stddef.h>\n#include <stdarg.h>\n#include <stdio.h>\n#include \"%s\"\n" % header
    for n in names: src += "unsigned long v_%s = (unsigned long)(%s);\n" % (n, n)
    r = subprocess.run(["clang", "-xc", "-S", "-emit-llvm", "-O0", "-I" + ir.REPO + "/include", "-I" + ir.REPO + "/src", "-Wno-everything", "-", "-o", "-"],
                       input=src.encode(), capture_output=True)
    if r.returncode: raise LayoutError(r.stderr.decode(errors="replace")[:500])
    g = {m.group(1): int(m.group(2)) for m in re.finditer(r"@v_(\w+) = .*global i64 (-?\d+)", r.stdout.decode())}
    return g

def cexpr(header, exprs):
    """integer values of constant C expressions {name: expr}"""
    src = "#include <stddef.h>\n#include <stdarg.h>\n#include <stdio.h>\n#include \"%s\"\n" % header
    for n, e in exprs.items(): src += "unsigned long v_%s = (unsigned long)(%s);\n" % (n, e)
    key = ("cexpr", src)
    if key in _lay: return _lay[key]
    r = subprocess.run(["clang", "-xc", "-S", "-emit-llvm", "-O0", "-I" + ir.REPO + "/include", "-I" + ir.REPO + "/src", "-Wno-everything", "-", "-o", "-"],
                       input=src.encode(), capture_output=True)
    if r.returncode: raise LayoutError(r.stderr.decode(errors="replace")[:500])
    _lay[key] = {m.group(1): int(m.group(2)) for m in re.finditer(r"@v_(\w+) = .*global i64 (-?\d+)", r.stdout.decode())}
    return _lay[key]

# ------------------------------------------------------------------ units
class Unit:
    """one proof task: fn(ctx) fills ctx.ex-produced obligations"""
    def __init__(self, name, fn, timeout=240, bounded=None): self.name = name; self.fn = fn; self.timeout = timeout; self.bounded = bounded

class Ctx:
    """collects the obligations of one unit"""
    def __init__(self, prog, unit): self.prog = prog; self.unit = unit; self.obls = []; self.funcs = set(); self.assumed = set(); self.loops = []; self.notes = []; self.deadline = None
    def executor(self, overrides=None, loopspec=None):
        ex = Executor(self.prog, overrides, loopspec, self.unit)
        ex.obls = self.obls; ex.used_funcs = self.funcs; ex.assumed = self.assumed; ex.loops_done = self.loops; ex.deadline = self.deadline
        return ex
    def func(self, name):
        f = self.prog.find(name)
        if f is None: raise Unsupported("function %s not found" % name)
        return f
    def oblige(self, st, goal, desc, kind="post"):
        ok, bk, info = smt.prove(st.facts, goal)
        self.obls.append((kind, ok, bk, desc, info, None if ok else (goal, list(st.facts.list))))
        if not ok: self.nfail += 1; self.enough()
        return ok
    nfail = 0
    def enough(self):
        if self.nfail >= 12: raise Enough("stopped after %d failed obligations" % self.nfail)
    def require(self, ok, desc, kind="post", bk="syntactic"):
        self.obls.append((kind, bool(ok), bk, desc, None, None if ok else (FALSE, [])))
        return ok
    def run(self, ex, st, fn, args, varargs=None, kinds=("ret",)):
        """call and check the outcome kinds; vacuity: at least one feasible outcome"""
        outs = ex.call(st, fn, args, varargs)
        outs = [o for o in outs if not o.facts.false]
        for o in outs:
            if o.kind not in kinds:
                ex.oblige(o, "safety", FALSE, "%s does not end by %s" % (fn.name, o.kind))
        self.require(bool(outs), "some outcome of %s is reachable" % fn.name, "vacuity")
        return [o for o in outs if o.kind in kinds]

class Enough(Exception): pass
def snap(st):
    """remember contents for a frame check"""
    return {o: (c, c.base, dict(c.cells)) for o, c in st.mem.items()}
def frame(ctx, before, out, allowed, desc=""):
    """every object that existed before and is not in `allowed` is unchanged (same bytes, same identity of content)"""
    for o, (c, base, cells) in before.items():
        if o in allowed: continue
        d = out.mem.get(o)
        if d is None:
            ctx.require(False, "frame: %s still exists %s" % (o.name.split("#")[0], desc), "frame"); continue
        if d is c and d.base is base and d.cells == cells: ctx.require(True, "frame: %s unchanged %s" % (o.name.split("#")[0], desc), "frame"); continue
        same = d.base is base and len(d.cells) == len(cells) and all(k in d.cells and d.cells[k][0] == v[0] and X_same(d.cells[k][1], v[1]) for k, v in cells.items())
        ctx.require(same, "frame: %s unchanged %s" % (o.name.split("#")[0], desc), "frame")
    for o, d in out.mem.items():
        if o.kind == "global" and o not in before and o not in allowed and not o.ro:
            g = o.tag
            ok = not d.cells and isinstance(d.base, AUF)
            ctx.require(ok, "frame: global %s not written %s" % (o.name.split("#")[0], desc), "frame")
def X_same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj is b.obj and a.off is b.off
    return False

def P(o, off=0): return Ptr(o, c64(off) if isinstance(off, int) else off)

# ------------------------------------------------------------------ running units in parallel
class Result:
    def __init__(self): self.name = ""; self.obls = []; self.funcs = []; self.assumed = []; self.loops = []; self.error = None; self.wall = 0; self.stats = {}; self.bounded = None; self.notes = []

def show_fact(x):
    try: return T.show(x, 7)[:600]
    except Exception: return "?"

def run_unit(prog, u):
    sys.setrecursionlimit(200000)
    r = Result(); r.name = u.name; t0 = time.time(); r.bounded = u.bounded
    for k in smt.STATS: smt.STATS[k] = 0
    ctx = Ctx(prog, u.name); ctx.deadline = t0 + u.timeout
    try:
        u.fn(ctx)
    except LoopFail as e:
        r.error = str(e)[:400]; ctx.obls += e.obls
    except Enough as e: r.error = str(e)
    except (Unsupported, Budget, MemError, LoopUndecided, LayoutError, ir.IRError, RecursionError) as e:
        r.error = "%s: %s" % (type(e).__name__, str(e)[:400])
        if os.environ.get("PGV_TRACE"): traceback.print_exc()
    except Exception as e:
        r.error = "%s: %s" % (type(e).__name__, str(e)[:300]) + " @ " + traceback.format_exc().strip().split("\n")[-3].strip()[:200]
        if os.environ.get("PGV_TRACE"): traceback.print_exc()
    for kind, ok, bk, desc, info, f in ctx.obls:
        detail = None
        if not ok:
            detail = {"info": info if not isinstance(info, dict) else {k: v for k, v in info.items() if not isinstance(v, tuple)}}
            if f: detail["goal"] = show_fact(f[0]); detail["facts"] = [show_fact(x) for x in f[1][-40:]]
        r.obls.append((kind, ok, bk, desc, detail))
    r.funcs = sorted(ctx.funcs); r.assumed = sorted(ctx.assumed); r.loops = ctx.loops; r.wall = time.time() - t0
    r.stats = dict(smt.STATS); r.notes = ctx.notes
    return r

_work = None
def _child(i):
    prog, units = _work
    return i, run_unit(prog, units[i])

def run_units(prog, units, jobs=8, deadline=None):
    """fork workers; a unit that dies or overruns is a failed unit"""
    global _work
    _work = (prog, units)
    res = [None] * len(units)
    order = list(range(len(units)))
    ctxm = multiprocessing.get_context("fork")
    running = {}; pend = order[::-1]
    import pickle
    def start(i):
        rd, wr = ctxm.Pipe(False)
        p = ctxm.Process(target=_proc, args=(i, wr)); p.start(); wr.close()
        running[i] = (p, rd, time.time())
    while pend or running:
        while pend and len(running) < jobs: start(pend.pop())
        ready = multiprocessing.connection.wait([rd for _, rd, _ in running.values()], timeout=1.0)
        now = time.time()
        for i in list(running):
            p, rd, t0 = running[i]
            if rd in ready:
                try: res[i] = rd.recv()
                except EOFError: res[i] = None
                p.join(5)
                if p.is_alive(): p.kill()
                if res[i] is None:
                    res[i] = Result(); res[i].name = units[i].name; res[i].error = "worker died"
                del running[i]; rd.close()
            elif now - t0 > units[i].timeout + 60 or (deadline and now > deadline):
                p.kill(); p.join()
                res[i] = Result(); res[i].name = units[i].name; res[i].error = "time limit"; res[i].wall = now - t0
                del running[i]; rd.close()
    return res
def _proc(i, wr):
    import resource
    try: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception: pass
    sys.setrecursionlimit(200000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    def go(): out.append(run_unit(_work[0], _work[1][i]))
    t = threading.Thread(target=go); t.start(); t.join()
    try:
        wr.send(out[0] if out else None)
    except Exception as e:
        r = Result(); r.name = _work[1][i].name; r.error = "result: %r" % e; wr.send(r)
    wr.close()
    os._exit(0)
import multiprocessing.connection
