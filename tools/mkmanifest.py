#!/usr/bin/env python3
"""Rewrite MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
nap = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(nap):
    NA = json.load(open(nap))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": f"./check.py {i}", "thorough_cmd": f"./check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the current Python source, every path's assertions decided by Z3 over all values in "
                         "the stated bounds, counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": "bounded: sizes and ranges are in the evidence (coverage.bounds); reals stand for floats within a stated tolerance"})
    else:
        na.append({"property": i, "reason": "no check committed yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "Every check re-reads /repo/python/src/adctoolbox on each run; exit 2 means the solver or the encoding gave no answer."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
