#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the modules under props/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props")]
sys.dont_write_bytecode = True
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    try:
        m = importlib.import_module(p.lower())
    except ModuleNotFoundError:
        na.append({"property": p, "reason": "check not built yet"})
        continue
    checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "exploration"),
                   "level_note": m.NOTE})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Property-based testing over the real executable; see DESIGN.md. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
