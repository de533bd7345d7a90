#!/usr/bin/env python3
"""Generates MANIFEST.json from sim/props.py (without importing JAX)."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "sim"))
sys.dont_write_bytecode = True
import props
PY = "/opt/venv/bin/python"
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": f"{PY} sim/selfcheck.py",
     "checks": [], "not_applicable": []}
for p in ids:
    if p in props.INFO:
        i = props.INFO[p]
        m["checks"].append({"property": p, "quick_cmd": f"{PY} sim/main.py --property {p} --tier quick",
                            "thorough_cmd": f"{PY} sim/main.py --property {p} --tier thorough",
                            "evidence_file": f"evidence/{p}.json",
                            "technique": "deterministic simulation with fault injection: " + i.get("technique", i["rule"])[:200],
                            "level": "exploration", "level_note": i.get("note", "seeded search over simulated executions; nothing is claimed beyond the executions explored")})
    else:
        m["not_applicable"].append({"property": p, "reason": props.NOT_APPLICABLE.get(p, "check not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
