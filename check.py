#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--only substr] [--replay FILE]
Decides one property: every obligation of its contracts, generated from /repo's current sources, must be discharged."""
import sys, os, json, time, argparse, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.setrecursionlimit(200000)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick"); ap.add_argument("--only"); ap.add_argument("--replay")
    ap.add_argument("--search", type=float, default=None, help="seconds of search for a failing input"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from pgv import replay, smt, ir
    if a.replay:
        d = json.load(open(a.replay)); c = d.get("failing_input")
        if not c: print("no failing input in %s; failed obligations:" % a.replay); print(json.dumps(d["failed_obligations"][:10], indent=1)); return 1
        got, err = replay.rerun(c); print("command: %s\nexpected: %s\nactual:   %s %s" % (c["command"][:2000], c["expected"], got, err or ""))
        return 0 if got.strip() == str(c["expected"]).strip() else 1
    from pgv import props
    from pgv.contracts import common as C
    t0 = time.time(); P = props.PROPS[a.pid]; thorough = a.tier == "thorough"
    smt.THOROUGH = thorough
    fails = []; rs = []
    try:
        prog = ir.load(want=P.want)
        if prog.errors: raise ir.IRError('does not compile: %s: %s' % (prog.errors[0][0], prog.errors[0][1][:300]))
        units = P.units(prog)
        if a.only: units = [u for u in units if a.only in u.name]
        if thorough:
            for u in units: u.timeout *= 3
        rs = C.run_units(prog, units, deadline=t0 + (3000 if thorough else 560))
        assert units and len(rs) == len(units)
    except (C.Unsupported, C.LayoutError, ir.IRError, C.MemError, KeyError, AssertionError) as e:
        # code the generator cannot put under contract: the proof does not go through
        fails.append({"unit": "generation", "kind": "generation", "what": "%s: %s" % (type(e).__name__, str(e)[:500]), "detail": None})
    nob = ndis = 0; kinds = {}; bks = {}; funcs = set(); assumed = set(); loops = []; stats = {}; bounded = []; samples = []
    for r in rs:
        if r.bounded: bounded.append("%s: %s (bounded, not counted as proved)" % (r.name, r.bounded))
        for kind, ok, bk, desc, detail in r.obls:
            if not r.bounded:
                nob += 1; ndis += bool(ok); kinds[kind] = kinds.get(kind, 0) + 1
                if ok: bks[bk] = bks.get(bk, 0) + 1
            if not ok: fails.append({"unit": r.name, "kind": kind, "what": desc, "back_end": bk, "detail": detail})
            elif len(samples) < 6 and kind == "post": samples.append("%s: %s [%s]" % (r.name, desc, bk))
        if r.error:
            nob += 1; fails.append({"unit": r.name, "kind": "generation", "what": r.error, "detail": None})
        elif not r.obls: nob += 1; fails.append({"unit": r.name, "kind": "vacuity", "what": "no obligation was generated", "detail": None})
        funcs.update(r.funcs); assumed.update(r.assumed); loops += ["%s: %s" % (r.name, l) for l in r.loops]
        for k, v in r.stats.items(): stats[k] = stats.get(k, 0) + v
        if a.v:
            bad = [o for o in r.obls if not o[1]]
            print("%-60s obls %4d bad %3d %6.1fs %s" % (r.name[:60], len(r.obls), len(bad), r.wall, r.error or ""))
            for b in bad[:4]: print("      ", b[0], b[2], b[3][:150], (b[4] or {}).get("goal", "")[:200])
    tproof = time.time() - t0
    inp = None; nrep = 0; reperr = None
    secs = a.search if a.search is not None else (200 if fails else (60 if thorough else 15))
    if secs:
        try: inp, nrep = replay.search(a.pid, secs)
        except replay.BuildError as e: reperr = "replay driver: " + str(e)
        except Exception as e: reperr = "replay: %s %s" % (e, traceback.format_exc()[-400:])
    wall = time.time() - t0
    bad = bool(fails) or inp is not None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = {"property": a.pid, "tier": a.tier, "seed": seed, "level": P.level, "wall_s": round(wall, 2), "violations": int(bad),
          "assumptions": P.assume + sorted("assumed: " + x for x in assumed),
          "coverage": {"obligations": nob, "discharged": ndis, "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (a.pid, a.tier),
                       "trusted_base": props.TB, "functions_under_contract": sorted(funcs), "units": len(rs), "obligations_by_kind": kinds, "discharged_by_back_end": bks,
                       "loops_with_inferred_invariants": loops[:200], "solver": {k: round(v, 2) for k, v in stats.items()}, "proof_wall_s": round(tproof, 2),
                       "bounded": bounded + P.bounded, "samples": samples, "replay_inputs_run": nrep}}
    if reperr: ev["coverage"]["replay_note"] = reperr
    EV = os.environ.get("PGV_EVIDENCE", HERE + "/evidence"); os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(EV + "/%s.json" % a.pid, "w"), indent=1)
    for l in open(HERE + "/KNOWN_FINDINGS.txt"):
        if l.startswith("known: property=%s " % a.pid): print("KNOWN-FINDING: property=%s %s" % (a.pid, l.split(" ", 2)[2].strip()))
    if bad:
        os.makedirs(HERE + "/replay_out", exist_ok=True); rp = HERE + "/replay_out/%s.json" % a.pid
        json.dump({"property": a.pid, "failing_input": inp, "failed_obligations": fails[:200], "replay_note": reperr,
                   "rerun": "python3-vt /verif/check.py %s --replay %s" % (a.pid, rp)}, open(rp, "w"), indent=1, default=str)
        for f in fails[:12]: print("failed obligation: %s: [%s] %s" % (f["unit"], f["kind"], f["what"][:300]))
        if inp: print("failing input: %s\n  expected %s\n  actual   %s" % (inp["command"][:400], str(inp["expected"])[:300], str(inp["actual"])[:300]))
        print("VIOLATION property=%s replay=%s%s" % (a.pid, rp, "" if inp else " no-failing-input-found"))
        return 1
    print("%s: %d obligations discharged over %d functions, %.1f s%s" % (a.pid, ndis, len(funcs), wall, "" if not bounded else ", %d bounded units" % len(bounded)))
    return 0
if __name__ == "__main__":
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); sys.exit(rc)
