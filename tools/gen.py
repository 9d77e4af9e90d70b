#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from spec/props.py and the checks present."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from spec.props import PROPS
from spec import claims, design

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=p["state"], meaning=p["state"], where=p["files"][0])]
        if p["observe"]:
            d["anchors"]["observe_at"] = [p["observe"]]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        c = claims.CLAIMS.get(i, {})
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="VERIF_TIER=thorough ./check %s" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=design.D[i][0] + " (Hypothesis)",
                           level="exploration",
                           level_note=c.get("note", "Generated-input search with shrinking; shows presence, not absence, of violations within the generator's domain. Trusts the harness's oracle, Hypothesis and the PyPy worker.")))
    else:
        na.append(dict(property=i, reason=claims.NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Checks run the code under test from /repo directly (pure Python, nothing to build) in forked PyPy workers; see DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(na), "not claimed")
