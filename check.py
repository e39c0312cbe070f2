#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property from /repo's current sources.

exit 0: every obligation discharged (or listed in known_findings.json); exit 1: VIOLATION; 2: no answer."""
import importlib, json, os, subprocess, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import irbuild
from registry import CHECKS

def lgsa(check, **kw):
    exe = os.path.join(irbuild.BUILD, "lgsa")
    if not os.path.exists(exe) or any(os.path.getmtime(os.path.join(VERIF, "src", f)) > os.path.getmtime(exe)
                                      for f in os.listdir(os.path.join(VERIF, "src"))):
        irbuild.sh(["bash", os.path.join(VERIF, "src", "build.sh")])
    cmd = [exe, check]
    for k, v in kw.items(): cmd += ["--" + k, v]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise irbuild.BuildError("lgsa %s: exit %d\n%s\n%s" % (check, r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
    return json.loads(r.stdout)

def merge(a, b):
    a["obligations"] += b["obligations"]
    for k, v in b["counts"].items(): a["counts"][k] = a["counts"].get(k, 0) + v if isinstance(v, int) else v
    a["notes"] += b.get("notes", [])

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[pid]
    res = {"obligations": [], "counts": {}, "notes": []}
    sources = 0
    for step in spec["steps"]:
        kind = step[0]
        if kind == "lgsa":
            _, check, tag = step[:3]
            bc, srcs = irbuild.build(tag)
            sources += len(srcs)
            merge(res, lgsa(check, bc=bc, **(step[3] if len(step) > 3 else {})))
        elif kind == "py":
            mod = importlib.import_module(step[1])
            r = getattr(mod, step[2])()
            merge(res, r)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    kf = {(k["rule"], k["key"]): k for k in known["known"] if k["property"] == pid}
    bad = [o for o in res["obligations"] if not o["ok"]]
    viol = [o for o in bad if (o["rule"], o["key"]) not in kf]
    hit = {(o["rule"], o["key"]) for o in bad}
    for k, v in kf.items():
        if k in hit: print("KNOWN-FINDING: property=%s %s" % (pid, v["what"]))
    n = len(res["obligations"])
    if n < spec.get("min", 1) and not viol:
        print("error: only %d obligations found (expected at least %d)" % (n, spec.get("min", 1)))
        return 2
    rules = {}
    for o in res["obligations"]: rules[o["rule"]] = rules.get(o["rule"], 0) + 1
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": spec["explain"], "obligations": n, "discharged": n - len(bad),
                       "obligations_per_rule": rules, "translation_units": sources, "counts": res["counts"],
                       "samples": [{k: o[k] for k in ("rule", "key", "where", "msg")} for o in res["obligations"][:8]],
                       "checker_cmd": "python3 check.py " + pid},
          "assumptions": spec.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if res["notes"]: ev["coverage"]["notes"] = res["notes"][:50]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not os.environ.get("LG_NOEV"):
      with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, sort_keys=True)
    if viol:
        rp = os.path.join(irbuild.BUILD, "replay-%s.json" % pid)
        with open(rp, "w") as f: json.dump({"property": pid, "violations": viol}, f, indent=1)
        for o in viol[:20]: print("%s: %s\n    at %s\n    %s" % (o["rule"], o["key"], o["where"], o["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: %d obligations discharged in %.1fs (%s)" % (pid, n - len(bad), time.time() - t0,
          ", ".join("%s=%d" % kv for kv in sorted(rules.items()))))
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except irbuild.BuildError as e:
        print("error: " + str(e)); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
