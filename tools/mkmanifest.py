"""writes MANIFEST.json from the properties that have contracts (level notes in tools/levels.json)"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
notes = json.load(open(H + "/tools/levels.json"))
checks, na = [], []
for p in props:
    n = notes.get(p["id"])
    if n is None: na.append(dict(property=p["id"], reason="check not built yet")); continue
    if n.get("na"): na.append(dict(property=p["id"], reason=n["na"])); continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
        technique=n.get("technique", "contract-based deductive verification (verification conditions generated from the instrumented real code, discharged by z3/cvc5)"),
        level=n.get("level", "proof"), level_note=n["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks", len(na), "n/a")
