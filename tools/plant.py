"""plant.py ID... : (re)confirm planted bugs in a scratch copy of /repo: applies, builds, stable tests pass, demo 0 unchanged / nonzero patched.
   plant.py --make SPEC.py : SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, what, files={name: text}, demo=text)]"""
import sys, os, json, subprocess, shutil, runpy
WT = "/tmp/plantwt"; V = "/verif/seeded"
ENV = dict(os.environ, CC="clang", CXX="clang++")
def sh(c, cwd=None, t=600): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=ENV)
def fresh():
    shutil.rmtree(WT, ignore_errors=True); os.makedirs(WT)
    r = sh("git -C /repo archive HEAD | tar x -C %s && git -C %s init -q && git -C %s add -A && git -C %s -c user.name=x -c user.email=x@x commit -qm x" % (WT, WT, WT, WT)); assert r.returncode == 0, r.stderr
    r = build(); assert r.returncode == 0, r.stdout[-2000:]
def build():
    r = sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DCMAKE_C_COMPILER=/usr/bin/clang -DCMAKE_CXX_COMPILER=/usr/bin/clang++ -DCMAKE_C_FLAGS="-Wno-error -include stdarg.h" -DCMAKE_CXX_FLAGS=-Wno-error' % (WT, WT))
    return sh("ninja -C %s/_build" % WT) if r.returncode == 0 else r
def tests():
    j = WT + "/rep.xml"
    sh("ctest --test-dir %s/_build -j8 --timeout 60 --output-junit %s" % (WT, j))
    import xml.etree.ElementTree as E
    ok = {t.get("name") for t in E.parse(j).getroot().iter("testcase") if t.get("status") == "run"}
    os.remove(j)
    base = json.load(open("/opt/vp/BASELINE.json")); b = [x.split("::")[0] for x in base["stable"]]
    return [x for x in b if x not in ok]
def confirm(i):
    d = V + "/" + i
    r = sh("bash %s/demo.sh" % d, WT, 300)
    if r.returncode: return "demo fails on unchanged: " + (r.stdout + r.stderr)[-500:]
    r = sh("git -C %s apply %s/patch.diff" % (WT, d))
    if r.returncode: return "does not apply: " + r.stderr[-300:]
    try:
        mine = [l[1:].strip() for l in sh("git -C /repo diff -U0 66d1a00 HEAD").stdout.split("\n") if l.startswith("+") and not l.startswith("+++")]
        own = [l for l in sh("git -C %s diff -U0" % WT).stdout.split("\n") if l.startswith("-") and not l.startswith("---") and l[1:].strip() in mine]
        r = build()
        if r.returncode: return "does not build: " + r.stdout[-800:]
        bad = tests()
        if bad: return "tests fail: %s" % bad[:5]
        r = sh("bash %s/demo.sh" % d, WT, 300)
        if r.returncode == 0: return "demo does not notice"
        return ("CHANGES MY LINES %r " % own if own else "") + "ok (demo rc %d: %s)" % (r.returncode, (r.stdout + r.stderr).strip()[-120:])
    finally:
        sh("git -C %s checkout -q -- . " % WT); build()
def main():
    fresh()
    try:
        if sys.argv[1] == "--make":
            bugs = runpy.run_path(sys.argv[2])["BUGS"]; only = sys.argv[3:]
            for b in bugs:
                if only and b["id"] not in only: continue
                d = V + "/" + b["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                for f, old, new in b["edits"]:
                    s = open(WT + "/" + f).read(); assert s.count(old) == 1, (b["id"], f, old, s.count(old))
                    open(WT + "/" + f, "w").write(s.replace(old, new))
                open(d + "/patch.diff", "w").write(sh("git -C %s diff" % WT).stdout); sh("git -C %s checkout -q -- ." % WT)
                for n, t in b.get("files", {}).items(): open(d + "/" + n, "w").write(t)
                open(d + "/demo.sh", "w").write(b["demo"])
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
                print(b["id"], confirm(b["id"]), flush=True)
        else:
            for i in (sys.argv[1:] if sys.argv[1] != "all" else sorted(os.listdir(V))): print(i, confirm(i), flush=True)
    finally: shutil.rmtree(WT, ignore_errors=True)
main()
