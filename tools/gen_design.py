"""writes DESIGN.md from tools/design/*.md, tools/props.py, the check modules' docstrings, known_findings.json and the seeded changes (development aid)"""
import ast, json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from props import PROPS
out = [open(T + "/design/head.md").read().rstrip(), "", "## 2. The properties, and how each is decided", ""]
matrix = json.load(open(T + "/matrix.json")) if os.path.exists(T + "/matrix.json") else {}
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["_na"]:
        continue
    i = p["id"]
    doc = ast.get_docstring(ast.parse(open(f"{V}/sa/checks/{i.lower()}.py").read())) or ""
    out += [f"### {i}  {p['title']}", "", p["statement"], "", "*Decided by* `sa/checks/" + i.lower() + ".py` - " + p["_technique"] + ".  " + " ".join(doc.split()), "",
            "*Ranges over:* " + p["quantifier"]["text"] + ".  *Why not tests:* " + p["why_tests_cant"]]
    corpus = f"{T}/corpus/{i.lower()}.py"
    ns = {}
    if os.path.exists(corpus):
        exec(compile(open(corpus).read(), corpus, "exec"), ns)
    ev = f"{V}/evidence/{i}.json"
    if os.path.exists(ev):
        e = json.load(open(ev))["coverage"]
        out += ["", f"*Size:* {e.get('rule_instances_total', '?')} obligations, {len(e.get('functions_analysed', ()))} functions analysed; mutation corpus: {len(ns.get('BAD', ()))} breaking edits reported, {len(ns.get('GOOD', ()))} harmless ones quiet."]
    note = p["_note"]
    k = note.find("calling convention. ")
    rest = note[k + 20:].strip() if k >= 0 else note.strip()
    if rest:
        out += ["", "*Limits:* " + rest]
    out.append("")
out += ["## 3. Findings", "", "Repaired in `/repo` (`fix:` commits; each check passes on the repaired tree and reports the defect again if it returns):", ""]
kf = json.load(open(V + "/known_findings.json"))
for k in kf:
    if k["status"] == "fixed":
        out.append("* " + k["text"])
out += ["", "Recorded, not repaired (the existing tests pin the defective values; printed as KNOWN-FINDING):", ""]
for k in kf:
    if k["status"] != "fixed":
        out.append(f"* {k['property']}: " + (k.get("text") or k.get("what") or json.dumps({x: y for x, y in k.items() if x not in ("property", "status")})))
out += ["", "## 4. Seeded changes", "", "Each breaks one property, passes the stable tests and has a demonstration (`seeded/<id>`).  'Also' lists other checks that report it (from `tools/matrix.py`).", "", "| change | property | needs | caught by its check | also |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    c = matrix.get(s, {}).get("caught", [])
    out.append(f"| {s} | {m['property']} | {m['needs']} | {'yes' if m['property'] in c or not c else 'NO'} | {', '.join(x for x in c if x != m['property'])} |")
out += ["", "## 5. Not applicable to static analysis here", ""]
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["_na"]:
        out.append(f"* **{p['id']} {p['title']}.**  {p['_na']}")
out += ["", open(T + "/design/tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len("\n".join(out)))
