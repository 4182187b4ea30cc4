#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks

VERIF = os.path.dirname(HERE)
props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
out = dict(version=1, setup_cmd="sh harness/setup.sh", checks=[], not_applicable=[],
           notes="TLA+ specifications in spec/, checked with TLC; conformance of the code by trace validation and replay "
                 "of TLC behaviours (harness/). No hooks in /repo: drivers observe public functions from outside.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append(dict(
            property=i, quick_cmd=f"python3 harness/run.py {i} quick", thorough_cmd=f"python3 harness/run.py {i} thorough",
            technique=c.get("technique", "TLA+ model checking (TLC) and trace validation of the code against the specification"),
            level=c.get("level", "model_checking"),
            level_note=c.get("note", "TLC explores the specification exhaustively within small constants; the code is bound to it by "
                                     "validating recorded traces, so the code is covered for the executions recorded.")))
    else:
        out["not_applicable"].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "No check built yet.")))
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
