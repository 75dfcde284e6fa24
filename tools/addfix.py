"""addfix.py PROPERTY COMMIT what: record a repaired defect."""
import json, sys
f = __file__.rsplit("/", 2)[0] + "/known_findings.json"
k = json.load(open(f)); p, c, w = sys.argv[1:]
k["findings"].append({"property": p, "status": "fixed", "commit": c, "what": f"fixed: property={p} {c} {w}"})
json.dump(k, open(f, "w"), indent=1)
