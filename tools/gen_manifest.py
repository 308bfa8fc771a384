#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib"); sys.path.insert(0, V + "/checks")
checks = {}
for f in sorted(glob.glob(V + "/checks/c_*.py")):
    checks.update(importlib.import_module(os.path.basename(f)[:-3]).CHECKS)
notes = json.load(open(V + "/tools/notes.json"))
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import vf; vf.build()\"", "checks": [], "not_applicable": []}
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in checks:
        n = notes.get(i, {})
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "technique": n.get("technique", "TLA+ specification checked with TLC; behaviours replayed into the library"),
                            "level": "model_checking", "level_note": n.get("note", "bounded: see DESIGN.md")})
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get(i, {}).get("na", "no check yet (work in progress)")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
