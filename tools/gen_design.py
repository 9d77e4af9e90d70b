#!/usr/bin/env python3
"""Write DESIGN.md."""
import ast, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from spec.props import PROPS
from spec.design import D

known = json.load(open(ROOT + "/known_findings.json"))
res = {}
p = ROOT + "/tools/seeded_results.json"
if os.path.exists(p):
    res = json.load(open(p))
out = [open(ROOT + "/spec/design_intro.md").read(), "\n## The properties\n"]
for p in PROPS:
    i = p["id"]
    src = open("%s/checks/%s.py" % (ROOT, i.lower())).read()
    ns = {}
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Technique*: %s.\n" % D[i][0])
    rule, nt = (ns["RULE"].split("non-trivial = ", 1) + [""])[:2]
    out.append("*Generated*: %s. *Non-trivial*: %s.\n" % (rule.rstrip("; ,"), nt.rstrip(".")))
    out.append("*Oracle*: %s\n" % D[i][1])
    out.append("*What the tests can't do*: %s.\n" % p["why"].rstrip("."))
    if ns.get("ASSUMPTIONS"):
        out.append("*Bounds and assumptions*: %s.\n" % "; ".join(ns["ASSUMPTIONS"]).rstrip("."))
    try:
        e = json.load(open("%s/evidence/%s.json" % (ROOT, i)))
        c = e["coverage"]
        out.append("*Cost (quick)*: about %d cases, %d distinct non-trivial, %d s.\n" % (c["evaluations"], c["distinct_nontrivial"], e["wall_s"]))
    except (OSError, KeyError):
        pass
    s = sorted(k for k, v in res.items() if v["property"] == i)
    if s:
        out.append("*Planted bugs*: %s.\n" % ", ".join("`%s` (%s)" % (k, "caught" if res[k]["caught"] else "missed") for k in s))
    fx = [f.split(" ", 3)[2:] for f in known["fixed"] if "property=%s " % i in f]
    if fx:
        out.append("*Defects it found, repaired*: %s.\n" % "; ".join("%s (%s)" % (t, h) for h, t in fx))
out.append(open(ROOT + "/spec/design_end.md").read())
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
print(len("\n".join(out)))
