"""addtech.py ID technique note: record how a property is decided."""
import json, sys
f = __file__.rsplit("/", 1)[0] + "/techniques.json"
t = json.load(open(f)); t[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(t, open(f, "w"), indent=1)
