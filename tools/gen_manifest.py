#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered scenarios."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import scenarios
NA = {
}
TECH = "bounded symbolic execution of the compiled real code (LLVM IR) with symbolic schedules, inputs and environment results; SAT solver verdict; counterexamples replayed natively"
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    sc = [s for s in scenarios.ALL if p["id"] in s.props]
    if sc and p["id"] not in NA:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"], "technique": TECH, "level": "model_checking",
                       "level_note": "%d scenarios (%s). Every interleaving of the visible operations within the scenario's bound on scheduling rounds (normally 3 per thread), loop iterations (normally 4) and threads, and every value of the symbolic inputs, is decided by one solver query per scenario; sequentially consistent memory, stubs as described in DESIGN.md; cut bounds are listed per scenario in the evidence."
                       % (len(sc), ", ".join(s.name for s in sc))})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "No harness yet: the code has not been brought under the engine.")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "not applicable:", ", ".join(x["property"] for x in na))
