#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, claimed=True, na=None, note="", tech=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, claimed=claimed, na=na, note=note, tech=tech))

exec(open(os.path.join(R, "tools", "table.py")).read())

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": p["mech"], "where": ", ".join(p["files"])}]},
        }) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["claimed"]:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "technique": p["tech"], "level": "other", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
m["notes"] = "All checks are one static analyzer (analyzer/), an abstract interpreter over go/ssa written for this repository; nothing of /repo is executed."
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
