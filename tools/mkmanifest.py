"""Writes MANIFEST.json from the table of checks below."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = json.load(open(os.path.join(V, "tools", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/, checked with TLC; harness/ replays specification behaviours into the code and validates recorded traces. See DESIGN.md."}
if T.get("hooks"): m["hooks"] = T["hooks"]
for p in props:
    if p in T["checks"]:
        c = T["checks"][p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": T["na"].get(p, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
