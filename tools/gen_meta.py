"""writes properties.jsonl and MANIFEST.json from tools/props.py (development aid)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
        if p["_na"]:
            na.append({"property": p["id"], "reason": p["_na"]})
        else:
            c = {"property": p["id"], "quick_cmd": f"python3 -m sa.run {p['id']}", "thorough_cmd": f"python3 -m sa.run {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p["_technique"], "level": "other", "level_note": p["_note"]}
            checks.append(c)
            assert os.path.exists(os.path.join(V, "sa", "checks", p["id"].lower() + ".py")), p["id"]
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo's current source and never import or run it."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
ms = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), ms)
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), ps)
print(len(checks), "checks", len(na), "not applicable")
