"""python3 tools/kf.py C10 16c2c46 'what failed': append a fixed entry to known_findings.json"""
import json
import sys
p = "/verif/known_findings.json"
d = json.load(open(p))
d.append({"property": sys.argv[1], "status": "fixed", "commit": sys.argv[2], "text": f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"})
json.dump(d, open(p, "w"), indent=1)
