#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when props/<id>.py exists."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(HERE, "props", i.lower() + ".py")
    if os.path.exists(f):
        src = open(f).read()
        ns = {}
        import ast
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("TECHNIQUE", "LEVEL_NOTE"):
                ns[node.targets[0].id] = ast.literal_eval(node.value)
        checks.append({
            "property": i,
            "quick_cmd": "./check.py %s --tier quick" % i,
            "thorough_cmd": "./check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": ns.get("TECHNIQUE", "property-based testing (Hypothesis generators, shrinking) against an independent reference"),
            "level": "exploration",
            "level_note": ns.get("LEVEL_NOTE", "Generated-input search: every case generated held; not a proof for the inputs not generated.")})
    else:
        na.append({"property": i, "reason": "check not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "./check.py --selftest", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
