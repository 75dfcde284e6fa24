"""Writes MANIFEST.json from the check modules present in props/."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
have = sorted(f.split("_")[0].upper() for f in os.listdir(os.path.join(R, "props")) if f.startswith("p") and f.endswith(".py"))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
TECH = json.load(open(os.path.join(R, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": TECH.get(i, {}).get("reason", "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
m["hooks"] = {"guard": "SWIFTSIMIO_SIM", "enable": "none needed: every seam is outside /repo (libc interposition, h5py, requests, sys.settrace); no hook commits exist",
              "source_commits": []}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
