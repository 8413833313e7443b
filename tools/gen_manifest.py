#!/usr/bin/env python3
"""MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "seq": "stateless model checking of the real code: exhaustive enumeration of all bounded operation/input "
           "sequences, each compared step by step with a reference model, under ASan/UBSan",
    "conc": "stateless model checking of the real threads under a controlled scheduler: all interleavings up to a "
             "preemption bound, with happens-before race, deadlock and lifetime detection",
}
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", TECH[c.get("kind", "seq")]),
            "level": c["level"],
            "level_note": c.get("level_note", "Every execution of the bounded space is run on the real library; "
                "see DESIGN.md for the bounds. Trusts the reference model, the compiler and the sanitizers.")})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.get("_na", {}).get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
