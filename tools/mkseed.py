"""development aid: build and verify seeded/<id>/ from tools/seeds.py in a scratch copy of /repo

  python3 tools/mkseed.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("seeds", os.path.join(V, "tools", "seeds.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"] if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None


def sh(cmd, cwd, **k):
    k.setdefault("env", dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=600, **k)


def main(ids):
    d = tempfile.mkdtemp(prefix="seedwt")
    shutil.rmtree(d)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    try:
        for s in m.SEEDS:
            if ids and s["id"] not in ids:
                continue
            out = os.path.join(V, "seeded", s["id"])
            sh("git checkout -q -- .", d, shell=True)
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + s["demo"].lstrip("\n"))
            p = os.path.join(out, "demo.sh")
            open(p, "w").write('#!/bin/sh\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'); os.chmod(p, 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            r0 = sh(["sh", p], d)
            for f, o, n in s["edits"]:
                q = os.path.join(d, "starlette", f)
                t = open(q).read()
                if t.count(o) < 1:
                    print(s["id"], "NOMATCH", f, o); break
                open(q, "w").write(t.replace(o, n, 1))
            diff = sh("git diff", d, shell=True).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            r1 = sh(["sh", p], d)
            x = d + "/.git/seed.xml"
            procs = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "--no-header", "-p", "no:cacheprovider", "--timeout=60", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], d)
            sh(["/usr/bin/python3", "/opt/vp/results.py", d + "/.git/seed.json", "junit:" + x], d)
            passed = set(json.load(open(d + "/.git/seed.json"))["passed"])
            broken = [n for n in base if n not in passed]
            tail = f"{len(broken)} stable broken {broken[:2]}"
            ok = r0.returncode == 0 and r1.returncode != 0 and not broken
            env = dict(os.environ, SA_REPO=d, SA_OUT=d)
            c = sh([sys.executable, "-m", "sa.run", s["property"]], V, env=env)
            print("ok " if ok else "XXX", s["id"], "demo", r0.returncode, r1.returncode, "| tests", tail[:90], "| check rc", c.returncode)
            if r0.returncode: print(r0.stdout[-500:], r0.stderr[-800:])
    finally:
        shutil.rmtree(d)

main(sys.argv[1:])
