#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in vlib/checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    try:
        m = importlib.import_module("vlib.checks." + i.lower())
    except ModuleNotFoundError:
        na.append({"property": i, "reason": "no check built yet; runtime monitoring applies, see DESIGN.md for the plan"})
        continue
    c = m.CHECK
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": c.technique, "level": c.level, "level_note": c.level_note})
hooks = json.load(open(os.path.join(V, "tools", "hooks.json"))) if os.path.exists(os.path.join(V, "tools", "hooks.json")) else None
d = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na}
if hooks:
    d["hooks"] = hooks
json.dump(d, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
