"""Replaying failed obligations on the real code: builds a driver from /repo's current sources with the address sanitizer,
runs inputs around the failing contract's case distinctions and compares with independent reference implementations.
A difference is a concrete failing input.  (This only turns a failed obligation into a failing input, or cross-checks
the trusted base in the thorough tier; it decides no property by itself.)"""
import os, sys, subprocess, hashlib, random, time, glob, concurrent.futures as cf
from . import ir, ref

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("PGV_CACHE", "/tmp/pgv_cache.%d" % os.getuid())
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

class BuildError(Exception): pass
def _cc(src, lang, flags):
    inc = ["-I" + ir.REPO + "/include", "-I" + ir.REPO + "/src"]
    cmd = (["clang++", "-std=c++14"] if lang == "c++" else ["clang", "-std=gnu11", "-include", "stdarg.h"]) + ["-w", "-g1", "-c"] + flags + inc
    pre = subprocess.run(cmd[:-len(inc) - len(flags) - 1] + flags + inc + ["-E", src], capture_output=True)
    if pre.returncode: raise BuildError(pre.stderr.decode(errors="replace")[:800])
    h = hashlib.sha256(repr((cmd, lang)).encode() + pre.stdout).hexdigest()[:32]
    o = os.path.join(CACHE, "o-" + h + ".o")
    if not os.path.exists(o):
        r = subprocess.run(cmd + [src, "-o", o + ".%d" % os.getpid()], capture_output=True)
        if r.returncode: raise BuildError(r.stderr.decode(errors="replace")[:800])
        os.replace(o + ".%d" % os.getpid(), o)
    return o
def build(kind="c", asan=True):
    """kind c: drv.c and the C sources; cpp: drv.cpp, all sources; tsan, tsanc: the same under the thread sanitizer"""
    os.makedirs(CACHE, exist_ok=True); san = "thread" if kind.startswith("tsan") else "address"; kind = {"tsan": "cpp", "tsanc": "c"}.get(kind, kind)
    flags = ["-O1", "-fsanitize=thread"] if san == "thread" else ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"] if asan else ["-O2"]
    cs = sorted(glob.glob(ir.REPO + "/src/*/*.c")); cpps = sorted(glob.glob(ir.REPO + "/src/*/*.cpp")) if kind == "cpp" else []
    srcs = [(f, "c") for f in cs] + [(f, "c++") for f in cpps] + [(HERE + "/replay/drv." + kind, "c++" if kind == "cpp" else "c")]
    if kind == "cpp": flags = flags + ["-DNDEBUG"]
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda s: _cc(s[0], s[1], flags), srcs))
    exe = os.path.join(CACHE, "x-" + hashlib.sha256((san + "".join(objs)).encode()).hexdigest()[:32])
    if not os.path.exists(exe):
        r = subprocess.run(["clang++" if kind == "cpp" else "clang"] + (["-fsanitize=" + san] if asan else []) + objs + ["-lpthread", "-lm", "-o", exe + ".%d" % os.getpid()], capture_output=True)
        if r.returncode: raise BuildError(r.stderr.decode(errors="replace")[:800])
        os.replace(exe + ".%d" % os.getpid(), exe)
    return exe

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0", TZ="UTC", TSAN_OPTIONS="exitcode=96:report_signal_unsafe=0:halt_on_error=1")
def run_lines(exe, lines, timeout=60):
    """-> list of output lines, error text (None when all lines were processed)"""
    try:
        p = subprocess.run([exe], input=("\n".join(lines) + "\n").encode(), capture_output=True, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode(errors="replace").split("\n")[:-1], "no answer within %d s" % timeout
    out = p.stdout.decode(errors="replace").split("\n")[:-1]
    if p.returncode == 77: raise BuildError("driver: " + p.stderr.decode(errors="replace")[:300])
    if p.returncode or len(out) < len(lines):
        e = p.stderr.decode(errors="replace")
        k = e.find("ERROR:"); e = e[k:k + 900] if k >= 0 else e[:900]
        return out, "exit status %d %s" % (p.returncode, e)
    return out, None

class Case:
    """cmd: driver line; want: expected output (string) or predicate(output)->None|message; plain: run without the sanitizer"""
    __slots__ = ("cmd", "want", "kind", "plain", "what")
    def __init__(s, cmd, want, kind="c", plain=False, what=""): s.cmd = cmd; s.want = want; s.kind = kind; s.plain = plain; s.what = what
def judge(c, out):
    out = out.strip()
    if callable(c.want):
        m = c.want(out)
        return None if m is None else (m, out)
    return None if out == c.want.strip() else (c.want.strip(), out)

def run_cases(cases, timeout=60):
    """first failing case of the list: (case, expected, actual) or None"""
    groups = {}
    for c in cases: groups.setdefault((c.kind, c.plain), []).append(c)
    for (kind, plain), cs in groups.items():
        exe = build(kind, not plain)
        if kind.startswith("tsan") and (lambda r: r[1] and "FATAL: ThreadSanitizer" in r[1])(run_lines(exe, ["S"])): continue     # not available here
        n = 1 if plain else max(1, min(8, len(cs) // 20))
        parts = [cs[i::n] for i in range(n)]
        with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda p: run_lines(exe, [c.cmd for c in p], timeout), parts))
        best = None
        for p, (out, err) in zip(parts, rs):
            for i, o in enumerate(out[:len(p)]):
                j = judge(p[i], o)
                if j and (best is None or len(p[i].cmd) < len(best[0].cmd)): best = (p[i], j[0], j[1])
            if err and len(out) < len(p):
                c = p[len(out)]
                # confirm alone
                o2, e2 = run_lines(exe, [c.cmd], timeout)
                if e2 and (best is None or len(c.cmd) < len(best[0].cmd)): best = (c, c.want if isinstance(c.want, str) else "a result satisfying the contract", "CRASH " + e2)
        if best: return best
    return None

def search(pid, seconds=60, seed=None):
    """search for a failing input; -> (dict or None, number of inputs run)"""
    from . import cases as G
    gen = G.GENS.get(pid)
    if gen is None: return None, 0
    rnd = random.Random((SEED if seed is None else seed) * 7919 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
    t0 = time.time(); n = 0
    for batch in gen(rnd):
        batch = list(batch); n += len(batch)
        r = run_cases(batch)
        if r:
            c, want, got = r
            return {"driver": c.kind, "sanitizer": not c.plain, "command": c.cmd, "expected": want, "actual": got, "what": c.what}, n
        if time.time() - t0 > seconds: break
    return None, n

def rerun(case):
    exe = build(case["driver"], case["sanitizer"])
    out, err = run_lines(exe, [case["command"]])
    return (out[0] if out else ""), err
