"""Writes MANIFEST.json from mc/registry.py and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from mc.registry import PARTS
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    parts = PARTS.get(p["id"])
    if not parts:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    modes = {x["mode"] for x in parts}
    tech = []
    if "full" in modes:
        tech.append("stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler")
    if "shim" in modes:
        tech.append("bounded exhaustive enumeration of operation histories/inputs/faults on the real code against a reference model")
    checks.append({
        "property": p["id"], "quick_cmd": f"./mc.sh {p['id']} --tier quick", "thorough_cmd": f"./mc.sh {p['id']} --tier thorough",
        "technique": "model checking: " + " + ".join(tech), "level": "model_checking",
        "level_note": "exhaustive within the bounds measured in the evidence file (alphabet/depth/preemption bound); nothing is claimed outside them",
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
