#!/usr/bin/env python3
# DESIGN.md from doc/head.md, the registry, the properties and doc/tail.md
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib"); sys.path.insert(0, V + "/doc")
from registry import CHECKS, NOT_APPLICABLE
from limits import LIMITS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [open(V + "/doc/head.md").read(), "\n## Properties decided\n"]
for p in props:
    if p["id"] not in CHECKS: continue
    c = CHECKS[p["id"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Method:* %s. " % c["technique"] + c["explain"] + "\n")
    if c.get("assume"): out.append("*Assumes:* " + "; ".join(c["assume"]) + ".\n")
    if p["id"] in LIMITS: out.append("*Limits:* " + LIMITS[p["id"]] + "\n")
    out.append("*Runs on:* " + ", ".join("%s %s (%s)" % (s[0], s[1], s[2]) for s in c["steps"]) + "; no answer below %d obligations.\n" % c["min"])
out.append("## Not applicable\n")
for p in props:
    if p["id"] in CHECKS: continue
    out.append("* **%s %s**: %s" % (p["id"], p["title"], NOT_APPLICABLE.get(p["id"], "no static check built.")))
kf = json.load(open(V + "/known_findings.json"))
seeds = []
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    seeds.append("* `%s`: %s (needs: %s). Caught by %s." % (os.path.basename(d), m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
tail = open(V + "/doc/tail.md").read().replace("@FIXED@", "\n".join("* " + x.replace("fixed: ", "") for x in kf["fixed"])).replace("@SEEDS@", "\n".join(seeds))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n" + tail)
