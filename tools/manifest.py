"""Regenerates MANIFEST.json from the checks present (checks/<id>.py) and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(f"{V}/tools/levels.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py") and i in NOTES:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get("_na", {}).get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na}
if os.path.exists(f"{V}/tools/hooks.json"):
    m["hooks"] = json.load(open(f"{V}/tools/hooks.json"))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
