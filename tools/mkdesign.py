#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.in.md, tools/design.json (how each property is decided) and the lists."""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
J = lambda p: json.load(open(os.path.join(R, p)))
D, C, NA, F = J("tools/design.json"), J("checks.json"), J("not-applicable.json"), J("known-findings.json")
caught = J("tools/caught.json")
o = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    o.append("### %s %s\n" % (i, p["title"]))
    if i in C:
        o.append((D.get(i, "") + "\n\nBounds: " + C[i]["level_note"].replace("Bounded symbolic execution: ", "")).strip() + "\n")
        a = [x for x in C[i]["assumptions"] if not x.startswith("Kani/CBMC")]
        if a:
            o.append("Assumed: " + "; ".join(a) + ".\n")
    else:
        o.append("Not applicable: " + NA.get(i, "no check yet.") + "\n")
s = open(os.path.join(R, "tools/DESIGN.in.md")).read()
s = s.replace("@PROPS@", "\n".join(o)).replace("@FIXED@", "\n".join("* " + x for x in F["fixed"]))
t = ["| planted bug | property | needs | outcome |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    b = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    t.append("| %s | %s | %s | %s |" % (b, d["property"], d["needs"], caught.get(b, "?")))
s = s.replace("@SEEDS@", "\n".join(t))
open(os.path.join(R, "DESIGN.md"), "w").write(s)
