"""development aid: run checks against edited scratch copies of the package (never /repo itself)

  python3 tools/mut.py [-k NAME] [-g|-b] CHECK...     corpus entries (only the good, only the bad) of tools/corpus/<check>.py for those checks
Each corpus file defines BAD = [(name, file, old, new), ...] (must be reported) and GOOD = [...] (must stay quiet).
old/new may be lists of equal length (several replacements, optionally with (file, old) tuples)."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(c):
    p = os.path.join(V, "tools", "corpus", c.lower() + ".py")
    spec = importlib.util.spec_from_file_location(c, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def one(job):
    check, kind, name, file, old, new = job
    d = tempfile.mkdtemp(prefix="samut")
    try:
        shutil.copytree("/repo/starlette", d + "/starlette", ignore=shutil.ignore_patterns("__pycache__"))
        reps = [(file, old, new)] if isinstance(old, str) else [(file, o, n) for o, n in zip(old, new)]
        for f, o, n in reps:
            if isinstance(o, tuple):
                f, o = o
            p = os.path.join(d, "starlette", f)
            s = open(p).read()
            if s.count(o) < 1:
                return job, "NOMATCH", ""
            s = s.replace(o, n, 1)
            compile(s, p, "exec")
            open(p, "w").write(s)
        env = dict(os.environ, SA_REPO=d, SA_OUT=d)
        r = subprocess.run([sys.executable, "-m", "sa.run", check], cwd=V, env=env, capture_output=True, text=True, timeout=900)
        return job, r.returncode, r.stdout.replace(d, "") + r.stderr[-600:]
    except Exception as ex:
        return job, "ERR", repr(ex)
    finally:
        shutil.rmtree(d)


def main(argv):
    k = None
    if argv and argv[0] == "-k":
        k = argv[1]
        argv = argv[2:]
    kinds = ("BAD", "GOOD")
    if argv and argv[0] in ("-g", "-b"):
        kinds = ("GOOD",) if argv[0] == "-g" else ("BAD",)
        argv = argv[1:]
    jobs = []
    for c in argv:
        m = load(c)
        for kind in kinds:
            for e in getattr(m, kind, []):
                if k is None or k in e[0]:
                    jobs.append((c.upper(), kind) + tuple(e))
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for job, rc, out in ex.map(one, jobs):
            want = 1 if job[1] == "BAD" else 0
            flag = "ok " if rc == want else "XXX"
            if rc != want:
                bad += 1
            first = [l for l in out.splitlines() if l.strip()]
            print(flag, job[0], job[1], job[2], "rc", rc, "|", (first[0][:170] if first else ""))
            if rc != want or k:
                print("     ", "\n      ".join(x[:400] for x in first[(-14 if k else -3):]))
    print("mismatches:", bad)


main(sys.argv[1:])
