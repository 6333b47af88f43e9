"""development aid: which checks report which seeded change (scratch copies; writes tools/matrix.json)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
P = V + "/tools/matrix.json"
old = json.load(open(P)) if os.path.exists(P) else {}
seeds = sys.argv[1:] or [s for s in sorted(os.listdir(V + "/seeded")) if s not in old]
def one(job):
    d, s, c = job
    r = subprocess.run(["python3", "-m", "sa.run", c], cwd=V, env={**os.environ, "SA_REPO": d, "SA_OUT": d + "/out" + c, "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True, timeout=900)
    return s, c, r.returncode
dirs, jobs = [], []
for s in seeds:
    d = tempfile.mkdtemp(prefix="samat"); dirs.append(d)
    shutil.copytree("/repo/starlette", d + "/starlette", ignore=shutil.ignore_patterns("__pycache__"))
    subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, V + f"/seeded/{s}/patch.diff"], check=True, cwd="/")
    jobs += [(d, s, c) for c in checks]
with ThreadPoolExecutor(7) as ex:
    for s, c, rc in ex.map(one, jobs):
        e = old.setdefault(s, {"caught": [], "broken": []})
        if rc == 1 and c not in e["caught"]: e["caught"].append(c)
        if rc not in (0, 1) and c not in e["broken"]: e["broken"].append(c)
json.dump({s: e for s, e in sorted(old.items()) if os.path.isdir(V + "/seeded/" + s)}, open(P, "w"), indent=1)
for d in dirs: shutil.rmtree(d)
