#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": c.get("technique", "runtime monitoring: real library under ASan+UBSan+LSan, generated workloads, event/trace checker against an independent reference model"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("level_note", "Holds on every execution explored (" + c["rule"] + "). Trusts clang 18's sanitizers and the reference code in lib/ and harness/."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors use only public interfaces. Known and repaired defects: known_findings.json. Design: DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
