import json, sys
sys.path.insert(0, "/verif"); sys.setrecursionlimit(100000)
from pgv import props as R
ps = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {}
TECH = "contract-based deductive verification of the compiled code (contracts + loop invariants, symbolic execution to verification conditions, SMT discharge); failing obligations are replayed on the real code"
checks = []; na = []
for p in ps:
    i = p["id"]
    if i in R.PROPS:
        P = R.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3-vt /verif/check.py %s --tier quick" % i, "thorough_cmd": "python3-vt /verif/check.py %s --tier thorough" % i,
                       "evidence_file": "/verif/evidence/%s.json" % i, "technique": TECH, "level": P.level, "level_note": P.note})
    else: na.append({"property": i, "reason": NA.get(i, "check under construction; not claimed yet")})
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q /verif/pgv", "hooks": {"guard": "", "enable": "", "source_commits": []}, "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts are kept in /verif/pgv/contracts and are attached to the functions of the LLVM IR compiled from /repo's sources on every run."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
