#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property without a check file is listed as not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, os.path.join(V, "tools"))
from checks_table import T
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PY = "/opt/horus-venv/bin/python"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(V, f"mc/checks/{i.lower()}.py")):
        tech, level, note = T[i]
        checks.append({"property": i, "quick_cmd": f"{PY} mc/run.py {i} --tier quick", "thorough_cmd": f"{PY} mc/run.py {i} --tier thorough",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check registered yet; model checking applies and the check is under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
