"""Writes MANIFEST.json for the checks present in mc/."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from techniques import TECH

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", i.lower() + ".py")):
        t, note = TECH[i]
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python mc/run.py {i} --tier quick",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python mc/run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the checks drive the public API and own the nondeterminism from outside "
              "(random generators replaced by menus, sys.settrace scheduler for threads). Known findings and repairs: KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not yet")
