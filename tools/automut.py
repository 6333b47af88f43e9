"""development aid: systematic mutants of the package, kept when the test suite does not notice them, then given to the checks

  python3-vt tools/automut.py OUT.jsonl SEED COUNT [FILE...]

One line per surviving mutant: file, line, operator, the new source line, and the checks that report it.  Works on scratch copies only."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ("test_client_on_asyncio",)
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def sites(tree):
    """(path to node, operator name, function changing the node in a copy)"""
    out = []
    for parent in ast.walk(tree):
        for field, val in ast.iter_fields(parent):
            for i, n in (list(enumerate(val)) if isinstance(val, list) else [(None, val)]):
                if not isinstance(n, ast.AST) or field in ("annotation", "returns", "decorator_list") and not field == "decorator_list":
                    continue
                out.append((parent, field, i, n))
    return out


def variants(n, field):
    C = copy.deepcopy
    if isinstance(n, ast.Expr) and not (isinstance(n.value, ast.Constant)):
        yield "drop", ast.Pass()
    if isinstance(n, (ast.Assign, ast.AugAssign)):
        yield "drop", ast.Pass()
    if isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
        yield "drop", ast.Pass()
    if isinstance(n, ast.Return) and n.value is not None:
        yield "none", ast.Return(None)
    if isinstance(n, ast.If):
        m = C(n); m.test = ast.UnaryOp(ast.Not(), m.test); yield "negate", m
        m = C(n); m.test = ast.Constant(True); yield "always", m
        m = C(n); m.test = ast.Constant(False); yield "never", m
    if isinstance(n, ast.IfExp):
        yield "then", n.body
        yield "else", n.orelse
    if isinstance(n, ast.BoolOp):
        m = C(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield "andor", m
        for i in range(len(n.values)):
            vs = n.values[:i] + n.values[i + 1:]
            yield f"drop{i}", vs[0] if len(vs) == 1 else ast.BoolOp(n.op, vs)
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        m = C(n); m.ops = [CMP[type(n.ops[0])]()]; yield "cmp", m
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield "unnot", n.operand
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
        m = C(n); m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add(); yield "arith", m
        yield "left", n.left
        yield "right", n.right
    if isinstance(n, ast.Constant) and field not in ("type",):
        if n.value is True or n.value is False:
            yield "bool", ast.Constant(not n.value)
        elif isinstance(n.value, int):
            yield "inc", ast.Constant(n.value + 1)
            if n.value:
                yield "dec", ast.Constant(n.value - 1)
        elif isinstance(n.value, str) and n.value and len(n.value) < 60:
            yield "empty", ast.Constant("")
            yield "upper", ast.Constant(n.value.swapcase())
        elif isinstance(n.value, bytes) and n.value:
            yield "empty", ast.Constant(b"")
    if isinstance(n, ast.Call):
        for i in range(len(n.args)):
            m = C(n); del m.args[i]; yield f"noarg{i}", m
        for i in range(len(n.keywords)):
            m = C(n); del m.keywords[i]; yield f"nokw{i}", m
        if len(n.args) >= 2:
            m = C(n); m.args[0], m.args[1] = m.args[1], m.args[0]; yield "swap", m
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in ("lower", "upper", "strip", "copy", "rstrip", "lstrip"):
            yield "nocall", n.func.value
        if isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "tuple", "str", "bool", "set", "sorted", "reversed") and len(n.args) == 1:
            yield "unwrap", n.args[0]
    if isinstance(n, ast.Try):
        if n.finalbody:
            m = C(n); m.finalbody = []
            if m.handlers:
                yield "nofinally", m
            else:
                yield "nofinally", ast.If(ast.Constant(True), n.body + n.finalbody, [])
        for i in range(len(n.handlers)):
            m = C(n); del m.handlers[i]
            if m.handlers or m.finalbody:
                yield f"nohandler{i}", m
    if isinstance(n, (ast.ExceptHandler,)) and isinstance(n.type, ast.Tuple):
        for i in range(len(n.type.elts)):
            m = C(n); m.type.elts = n.type.elts[:i] + n.type.elts[i + 1:]; yield f"exc{i}", m
    if isinstance(n, ast.Dict):
        for i in range(len(n.keys)):
            m = C(n); del m.keys[i]; del m.values[i]; yield f"nokey{i}", m


def mutants(path, only=None):
    src = open(path).read()
    tree = ast.parse(src)
    src0 = ast.unparse(tree)
    doc = {id(x.body[0]) for x in ast.walk(tree) if isinstance(x, (ast.Module, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x.body and isinstance(x.body[0], ast.Expr)}
    ann = set()
    for x in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(x, f, None)
            if isinstance(a, ast.AST):
                ann |= {id(y) for y in ast.walk(a)}
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "warn" or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("TypeVar", "ParamSpec"):
            ann |= {id(y) for y in ast.walk(x)}
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            ann.add(id(x))
        if isinstance(x, ast.Raise) and x.exc is not None:
            for y in ast.walk(x.exc):
                if isinstance(y, (ast.Constant, ast.JoinedStr)):
                    ann.add(id(y))
        if isinstance(x, ast.Assert) and x.msg is not None:
            ann |= {id(y) for y in ast.walk(x.msg)}
        if isinstance(x, ast.JoinedStr):
            ann |= {id(y) for y in ast.walk(x) if isinstance(y, ast.Constant)}
    res, k = [], -1
    for parent, field, i, n in sites(tree):
        if id(n) in doc or id(n) in ann or not hasattr(n, "lineno"):
            continue
        for op, new in variants(n, field):
            k += 1
            if only and k not in only:
                continue
            if only == ():
                continue
            old = getattr(parent, field)[i] if i is not None else getattr(parent, field)
            if i is not None:
                getattr(parent, field)[i] = new
            else:
                setattr(parent, field, new)
            try:
                text = ast.unparse(ast.fix_missing_locations(copy.deepcopy(tree)))
                compile(text, path, "exec")
                if text == src0:
                    continue
                res.append((n.lineno, op, ast.unparse(n)[:100].split("\n")[0], ast.unparse(ast.fix_missing_locations(copy.deepcopy(new)))[:100].split("\n")[0], text))
            except Exception:
                pass
            if i is not None:
                getattr(parent, field)[i] = old
            else:
                setattr(parent, field, old)
    return res if only != () else k + 1


def checks_for(file):
    """the checks of the properties anchored in the file first, then those about the whole application"""
    first, rest = [], []
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        c = p["id"]
        if not os.path.exists(f"{V}/sa/checks/{c.lower()}.py"):
            continue
        (first if file in json.dumps(p) else rest).append(c)
    return first + [c for c in rest if c in ("C24", "C39", "C29", "C43", "C41", "C02", "C07")]


def one(job):
    file, (line, op, old, new, text) = job
    d = tempfile.mkdtemp(prefix="samut")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns("__pycache__", ".git", "docs", ".mypy_cache"))
        p = os.path.join(d, "r", "starlette", file)
        open(p, "w").write(text)
        env = dict(os.environ, PYTHONPATH=d + "/r", PYTHONDONTWRITEBYTECODE="1", PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONHASHSEED="0")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=20", "--basetemp=" + d + "/t", *DESELECT, "tests"], cwd=d + "/r", env=env, capture_output=True, text=True, timeout=100)
        except subprocess.TimeoutExpired:
            return None
        if r.returncode != 0:
            return None
        hits, odd = [], []
        env = dict(os.environ, SA_REPO=d + "/r", SA_OUT=d)
        for c in checks_for(file):
            try:
                r = subprocess.run([sys.executable, "-m", "sa.run", c], cwd=V, env=env, capture_output=True, text=True, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "t"
            if rc == 1:
                hits.append(c)
                break
            elif rc != 0:
                odd.append(c)
        return {"file": file, "line": line, "op": op, "old": old, "new": new, "hits": hits, "odd": odd}
    except OSError:
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


DESELECT = []


def main(out, seed, count, files):
    base = "/repo/starlette"
    files = files or [os.path.relpath(os.path.join(r, f), base) for r, _, fs in os.walk(base) for f in fs if f.endswith(".py")]
    every = [(f, i) for f in sorted(files) for i in range(mutants(os.path.join(base, f), ()))]
    rng = random.Random(int(seed))
    rng.shuffle(every)
    every = every[:int(count)]
    jobs = [(f, m) for f in files for m in mutants(os.path.join(base, f), {i for g, i in every if g == f} or {-1})]
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    n = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex, open(out, "a") as fh:
        for r in ex.map(one, jobs):
            n += 1
            if r:
                fh.write(json.dumps(r) + "\n")
                fh.flush()
            if n % 50 == 0:
                print(n, flush=True)


if __name__ == "__main__":
    DESELECT[:] = [f"--deselect={t}" for t in os.environ.get("DESELECT", "").split()]
    main(sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:])
