"""Writes MANIFEST.json from the checks that exist: python3-vt tools/manifest.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from yv import main
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if not os.path.exists(os.path.join(V, "yv", "props", p.lower() + ".py")):
        na.append({"property": p, "reason": "its check is not built yet"})
        continue
    c = main.load(p)
    checks.append({"property": p, "quick_cmd": "python3-vt -m yv.main check " + p,
                   "thorough_cmd": "python3-vt -m yv.main check " + p + " --thorough",
                   "technique": c.technique, "level": c.level, "level_note": c.note})
m = {"version": 1, "setup_cmd": "python3-vt -m yv.main setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
