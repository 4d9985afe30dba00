#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
C = json.load(open(os.path.join(R, "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NA = json.load(open(os.path.join(R, "not-applicable.json")))
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                 "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "technique": "bounded symbolic execution of the generated code with Kani/CBMC (SAT), counterexamples replayed natively",
                 "level": C[p]["level"], "level_note": C[p]["level_note"] + " Beyond these bounds nothing is claimed."} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA.get(p, "No check yet.")} for p in props if p not in C],
     "notes": "All checks run Kani on /verif/harness, a crate with a path dependency on /repo/validators; no hooks in /repo are needed."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
