"""Writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = json.load(open(os.path.join(V, "tools", "checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for pid in ids:
    if pid in CHECKS["checks"]:
        c = CHECKS["checks"][pid]
        cmd = f"bash /verif/run.sh {pid.lower()}"
        checks.append({"property": pid, "quick_cmd": f"VERIF_TIER=quick {cmd}", "thorough_cmd": f"VERIF_TIER=thorough {cmd}",
                       "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
na = [{"property": p, "reason": r} for p, r in CHECKS["not_applicable"].items() if p not in CHECKS["checks"]]
m = {"version": 1, "setup_cmd": "bash /verif/run.sh setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
