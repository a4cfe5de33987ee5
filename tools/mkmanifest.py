#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
import check
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": [], "not_applicable": []}
for p in props:
    c = check.CHECKS.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 checks/check.py {p['id']} --quick", "thorough_cmd": f"python3 checks/check.py {p['id']} --thorough",
                            "technique": "TLA+ specification: " + c["what"], "level": c["level"],
                            "level_note": "Bounds: " + c["bounds"] + ". Trusts TLC, the harness' projection of results to JSON and rustc; conformance is on generated scripts, not a proof for all inputs."})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "check under construction")})
m["notes"] = "No hooks in /repo: harness crates under harness/ use the public API through path dependencies. Specifications are in specs/."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
