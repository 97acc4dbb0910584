#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run after editing it)."""
import json, os, sys
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(d, "gen"))
import props
checks, na = [], []
with open(os.path.join(d, "properties.jsonl"), "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if "state" in p: o["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in p["state"]]
        f.write(json.dumps(o) + "\n")
        if "na" in p:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": "bash run.sh " + p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(d, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
t = open(os.path.join(d, "gen", "DESIGN.tmpl.md")).read()
ps = ""
for p in sorted(props.P, key=lambda p: p["id"]):
    ps += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if "na" in p: ps += "*Not applicable to static analysis:* %s\n\n" % p["na"]
    else: ps += "*Decided by:* %s. %s\n\n" % (p["technique"], p["note"])
bs = "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
res = {}
rp = os.path.join(d, "gen", "bug_results.txt")
if os.path.exists(rp):
    for l in open(rp):
        f = l.split()
        if len(f) > 2: res[f[0]] = l.split(":", 1)[1].strip() or "none"
sd = os.path.join(d, "seeded")
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    bs += "| %s | %s | %s | %s |\n" % (b, m["property"], m["what_it_breaks"], res.get(b, "?"))
open(os.path.join(d, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", ps.strip()).replace("@@BUGS@@", bs))
print(len(checks), "claimed,", len(na), "not applicable")
