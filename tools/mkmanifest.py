#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the plans in checks/."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", "plan_%s.py" % pid)):
        m = importlib.import_module("plan_" + pid)
        pl = m.plan(False)
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": pl.get("technique", "runtime monitoring: online comparison of the real extension with a model under generated workloads, part of it under ASan/UBSan"),
            "level": pl.get("level", "exploration"),
            "level_note": pl.get("level_note", "Random and stress workloads sampled from a seed; the oracle decides every observed operation, nothing is claimed beyond the executions observed."),
        })
    else:
        na.append({"property": pid, "reason": "no monitor built for it yet"})
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks}
if na:
    man["not_applicable"] = na
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
