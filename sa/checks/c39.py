"""Every module imports, on its own, on every declared Python version, with only the declared dependencies.

The module-level code of every public module is followed as the import system would run it, starting from that module, for every
declared Python version, with the optional packages installed and without them: which modules are entered in which order, which names exist when
they are imported or used.  Every global name used inside a function must exist in the finished module.  Language and library features newer (or removed
earlier) than a declared version are found by type-checking the package once per version with mypy's version tables and comparing.
"""
import ast
import builtins
import io
import os
import re
import shutil
import subprocess
import symtable
import sys
import tempfile
import tokenize
from concurrent.futures import ThreadPoolExecutor

from ..program import AnchorError

MYPY = ("/opt/venv/bin/mypy",)
# packages a public module may need to be imported at all, beyond the required dependencies: the documented ones
NEEDS = {"starlette.middleware.sessions": {"itsdangerous"}, "starlette.testclient": {"httpx"}}
IMPORT_ERRORS = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}
MODULE_NAMES = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__builtins__", "__class__", "__annotations__", "__module__", "__qualname__"}


class Missing(Exception):
    """an import (or a name) that fails: what, where, text"""

    def __init__(self, kind, at, text):
        self.kind, self.at, self.text = kind, at, text


def declared(root):
    """(declared versions, required packages: name -> condition on the version, optional packages)"""
    path = os.path.join(root, "pyproject.toml")
    versions, required, optional = [(3, n) for n in range(9, 14)], {"anyio": lambda v: True, "typing_extensions": lambda v: v < (3, 10)}, set()
    if os.path.exists(path):
        import tomllib
        with open(path, "rb") as f:
            d = tomllib.load(f).get("project", {})
        low = re.search(r">=\s*3\.(\d+)", d.get("requires-python", ""))
        ups = [int(m.group(1)) for c in d.get("classifiers", ()) for m in [re.search(r"Python :: 3\.(\d+)$", c)] if m]
        if low and ups:
            versions = [(3, n) for n in range(int(low.group(1)), max(ups) + 1)]
        name = lambda r: re.match(r"[A-Za-z0-9_.-]+", r).group(0).replace("-", "_").lower()
        required = {}
        for r in d.get("dependencies", ()):
            m = re.search(r"python_version\s*<\s*'3\.(\d+)'", r)
            required[name(r)] = (lambda v, n=int(m.group(1)): v < (3, n)) if m else (lambda v: True)
        optional = {name(r) for r in d.get("optional-dependencies", {}).get("full", ())}
    return versions, required, optional


def library(mypy):
    """module -> (first version, last version) of the standard library, from mypy's tables"""
    base = os.path.dirname(os.path.dirname(mypy))
    for d, dirs, files in os.walk(os.path.join(base, "lib")):
        if d.endswith(os.path.join("mypy", "typeshed", "stdlib")) and "VERSIONS" in files:
            out = {}
            for line in open(os.path.join(d, "VERSIONS")):
                line = line.split("#")[0].strip()
                if line:
                    n, r = line.split(":")
                    a, b = r.strip().split("-")
                    num = lambda s: tuple(int(x) for x in s.split("."))
                    out[n.strip()] = (num(a), num(b) if b else (9, 9))
            return {n: r for n, r in out.items() if n not in ("typing_extensions", "mypy_extensions", "_typeshed")}
    raise AnchorError("mypy's table of standard library modules not found")


class Importer:
    """the import system, run over the module-level code of the package"""

    def __init__(self, program, version, std, required, absent):
        self.p, self.version, self.std, self.required, self.absent = program, version, std, required, absent     # absent: None, or the only optional packages there are
        self.modules = {n: m for n, m in program.modules.items() if m is not program.client}
        self.names = {}         # module -> names bound so far
        self.order = []
        self.third = {}         # third-party package -> first place that imports it
        self.steps = 0

    def load(self, name, at):
        if name in self.names:
            return
        m = self.modules[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0], at)
        if name in self.names:
            return
        self.names[name] = set()
        self.order.append(name)
        future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)
        try:
            self.block(m, m.tree.body, self.names[name], future)
        except Missing:
            del self.names[name]
            raise
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            self.names[parent].add(leaf)

    def at(self, m, node):
        return f"{m.path}:{getattr(node, 'lineno', 1)}"

    def external(self, m, node, full, names=()):
        top = full.split(".")[0]
        for n in [full] + [f"{full}.{x}" for x in names]:
            r = self.std.get(n)
            if r is not None and not (r[0] <= self.version <= r[1]):
                raise Missing("version", self.at(m, node), f"module {n} of the standard library does not exist in Python {self.version[0]}.{self.version[1]}")
        if top in self.std or top in sys.stdlib_module_names:
            return
        if top not in self.required:
            if self.absent is not None and top not in self.absent:
                raise Missing("dependency", self.at(m, node), f"package {top} is needed")
            self.third.setdefault(top, self.at(m, node))
        elif not self.required[top](self.version):
            raise Missing("dependency", self.at(m, node), f"package {top} is not a dependency on Python {self.version[0]}.{self.version[1]}")

    def block(self, m, body, env, future, cls=None):
        for s in body:
            self.stmt(m, s, env, future, cls)

    def uses(self, m, node, env, cls):
        """names evaluated at once by an expression"""
        if node is None:
            return
        todo = [node]
        while todo:
            x = todo.pop()
            if isinstance(x, ast.Lambda):
                todo += list(x.args.defaults) + [d for d in x.args.kw_defaults if d is not None]
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                bound = {n.id for g in x.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                inner = set(env) | bound
                for sub in ast.iter_child_nodes(x):
                    self.uses(m, sub, inner, cls)
                continue
            if isinstance(x, ast.NamedExpr):
                env.add(x.target.id)
                todo.append(x.value)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.steps += 1
                if x.id not in env and (cls is None or x.id not in cls) and x.id not in MODULE_NAMES and not hasattr(builtins, x.id):
                    raise Missing("name", self.at(m, x), f"name {x.id} is used during the import before it exists")
            todo += list(ast.iter_child_nodes(x))

    def bind(self, target, env):
        for n in ast.walk(target):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                env.add(n.id)

    def test(self, e):
        """truth of a condition the version decides, else None"""
        if isinstance(e, ast.BoolOp):
            vs = [self.test(v) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.test(e.operand)
            return None if v is None else not v
        t = ast.unparse(e)
        if t in ("typing.TYPE_CHECKING", "TYPE_CHECKING", "t.TYPE_CHECKING"):
            return False
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and ast.unparse(e.left) in ("sys.version_info", "sys.version_info[:2]", "version_info"):
            try:
                c = ast.literal_eval(e.comparators[0])
            except ValueError:
                return None
            cur = self.version + (99,) if len(c) > 2 else self.version[:len(c)]
            ops = {ast.GtE: cur >= c, ast.Lt: cur < c, ast.Gt: self.version + (99,) > c, ast.LtE: self.version + (99,) <= c, ast.Eq: cur == c, ast.NotEq: cur != c}
            return ops.get(type(e.ops[0]))
        return None

    def stmt(self, m, s, env, future, cls):
        mod_env = env if cls is None else cls       # functions and nested classes see the module's names
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name in self.modules:
                    self.load(a.name, self.at(m, s))
                elif a.name.split(".")[0] == self.p.pkg:
                    raise Missing("name", self.at(m, s), f"there is no module {a.name}")
                else:
                    self.external(m, s, a.name)
                env.add(a.asname or a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            full = s.module or ""
            if s.level:
                base = m.name.split(".") if m.is_pkg else m.name.split(".")[:-1]
                base = base[:len(base) - s.level + 1]
                full = ".".join(base + ([s.module] if s.module else []))
            if full in self.modules:
                self.load(full, self.at(m, s))
                for a in s.names:
                    if a.name == "*":
                        env.update(self.names[full])
                        continue
                    if a.name not in self.names[full]:
                        sub = f"{full}.{a.name}"
                        if sub not in self.modules:
                            started = self.order.index(full) if full in self.order else -1
                            raise Missing("name", self.at(m, s), f"{full} has no name {a.name} " + ("yet: circular import " + " -> ".join(self.order[started:]) if full != m.name and full in self.order else ""))
                        self.load(sub, self.at(m, s))
                    env.add(a.asname or a.name)
            elif full.split(".")[0] == self.p.pkg:
                raise Missing("name", self.at(m, s), f"there is no module {full}")
            else:
                if full != "__future__":
                    self.external(m, s, full, [a.name for a in s.names if f"{full}.{a.name}" in self.std])
                env.update(a.asname or a.name for a in s.names)
        elif isinstance(s, ast.If):
            v = self.test(s.test)
            if v is None:
                self.uses(m, s.test, env, cls)
                e1, e2 = set(env), set(env)
                self.block(m, s.body, e1, future, cls)
                self.block(m, s.orelse, e2, future, cls)
                env |= e1 | e2
            else:
                self.block(m, s.body if v else s.orelse, env, future, cls)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            try:
                self.block(m, s.body, env, future, cls)
                self.block(m, s.orelse, env, future, cls)
            except Missing as ex:
                if ex.kind not in ("dependency", "version"):
                    raise
                for h in s.handlers:
                    names = {"BaseException"} if h.type is None else {ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
                    if names & IMPORT_ERRORS:
                        if any(isinstance(x, ast.Raise) for x in h.body):
                            raise
                        self.block(m, h.body, env, future, cls)
                        break
                else:
                    raise
            self.block(m, s.finalbody, env, future, cls)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = s.args
            for e in s.decorator_list + a.defaults + [d for d in a.kw_defaults if d is not None]:
                self.uses(m, e, env, mod_env)
            if not future:
                for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    self.uses(m, x.annotation, env, mod_env)
                self.uses(m, s.returns, env, mod_env)
            env.add(s.name)
        elif isinstance(s, ast.ClassDef):
            for e in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.uses(m, e, env, mod_env)
            self.block(m, s.body, set(), future, mod_env)
            env.add(s.name)
        elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            self.uses(m, s.value, env, cls)
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if isinstance(s, ast.AnnAssign) and not future:
                self.uses(m, s.annotation, env, cls)
            for t in targets:
                if not isinstance(t, ast.Name):
                    self.uses(m, t, env, cls)
                if not isinstance(s, ast.AnnAssign) or s.value is not None:
                    self.bind(t, env)
        elif isinstance(s, (ast.For, ast.While, ast.With)):
            for e in [x for x in ast.iter_child_nodes(s) if isinstance(x, ast.expr)]:
                self.uses(m, e, env, cls)
                self.bind(e, env)
            for i in getattr(s, "items", ()):
                self.uses(m, i.context_expr, env, cls)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, env)
            self.block(m, s.body, env, future, cls)
            self.block(m, getattr(s, "orelse", []), env, future, cls)
        elif isinstance(s, (ast.Expr, ast.Assert, ast.Delete, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.uses(m, e, env, cls)


class Strip(ast.NodeTransformer):
    """annotations are not evaluated (locals never, the others not under the future import)"""

    def __init__(self, future):
        self.future = future
        self.depth = 0

    def fn(self, n):
        if self.future:
            n.returns = None
            for x in ast.walk(n.args):
                if isinstance(x, ast.arg):
                    x.annotation = None
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = fn

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        self.generic_visit(n)
        self.depth = d
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if self.future or self.depth:
            n.annotation = ast.Constant(0)
        return n


def free_names(m):
    """(name, line of the function) for every global name the functions of a module use"""
    tree = ast.parse(m.src)
    future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in tree.body)
    tree = ast.fix_missing_locations(Strip(future).visit(tree))
    top = symtable.symtable(ast.unparse(tree), m.path, "exec")
    lines = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name):
            lines.setdefault(n.id, n.lineno)
    out = set()
    bound = set()

    def walk(t):
        for s in t.get_symbols():
            if t.get_type() != "module" and s.is_global() and s.is_assigned():
                bound.add(s.get_name())
            if t.get_type() == "function" and s.is_global() and s.is_referenced():
                out.add((s.get_name(), t.get_name()))
        for c in t.get_children():
            walk(c)
    walk(top)
    return [(n, f, lines.get(n, 1)) for n, f in sorted(out) if n not in bound]


def new_strings(m):
    """f-strings only Python 3.12 can read: the quotes of the string, or a backslash, inside a replacement field"""
    out, stack = [], []
    for t in tokenize.generate_tokens(io.StringIO(m.src).readline):
        name = tokenize.tok_name[t.type]
        if name == "FSTRING_START":
            q = t.string.lstrip("rRfFbBuU")
            if any(s == q for s in stack):
                out.append(t.start[0])
            stack.append(q)
        elif name == "FSTRING_END":
            stack.pop()
        elif name == "STRING" and stack:
            q = t.string.lstrip("rRfFbBuU")
            if any(q.startswith(s) or len(s) == 1 and s in q for s in stack) or "\\" in t.string:
                out.append(t.start[0])
        elif name == "COMMENT" and stack:
            out.append(t.start[0])
    return out


def type_check(mypy, root, version):
    cache = tempfile.mkdtemp(prefix="sa-mypy")
    try:
        r = subprocess.run([mypy, "--config-file=", "--python-version", "%d.%d" % version, "--no-site-packages", "--ignore-missing-imports", "--check-untyped-defs", "--show-error-codes", "--no-color-output", "--cache-dir=" + cache,
                            "--no-error-summary", "starlette"], cwd=root, capture_output=True, text=True, timeout=400, env={**os.environ, "MYPYPATH": "", "PYTHONDONTWRITEBYTECODE": "1"})
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    out = {}
    for line in r.stdout.splitlines():
        m = re.match(r"(starlette/[^:]+):(\d+): error: (.*?)(?:  \[([a-z-]+)\])?$", line)
        if m:
            out.setdefault((m.group(1), int(m.group(2)), m.group(4) or ""), m.group(3))
    if r.returncode not in (0, 1) and not out:
        raise AnchorError("mypy failed: " + (r.stdout + r.stderr)[-300:])
    return out, r.returncode == 2


def run(ctx):
    ctx.rule("imports-alone", "importing any public module first, with or without the optional packages, completes: every imported and used name exists by then")
    ctx.rule("dependencies", "a module needs no other package than the declared ones")
    ctx.rule("versions", "no language or library feature that one of the declared Python versions lacks, outside a version test")
    ctx.rule("global-names", "every global name a function uses exists in its module")
    p = ctx.p
    mypy = next((x for x in MYPY if os.path.exists(x)), None)
    if mypy is None:
        raise AnchorError("mypy is not installed")
    versions, required, optional = declared(p.root)
    std = library(mypy)
    with ThreadPoolExecutor(len(versions)) as ex:
        checked = {v: ex.submit(type_check, mypy, p.root, v) for v in versions}
    public = [n for n in p.modules if not any(x.startswith("_") for x in n.split("."))]
    if len(public) < 20 or "starlette.applications" not in public:
        raise AnchorError("the public modules are not there")
    named = set()
    for v in versions:
        for entry in public:
            for absent in (None, NEEDS.get(entry, set())):
                ctx.oblige("import")
                imp = Importer(p, v, std, required, absent)
                try:
                    imp.load(entry, entry)
                except Missing as e:
                    rule = {"name": "imports-alone", "version": "versions", "dependency": "dependencies"}[e.kind]
                    ctx.report(rule, e.at.split(":")[0][:-3].replace("/", "."), e.text, e.at, [f"import {entry} on Python {v[0]}.{v[1]}" + ("" if absent is None else " without optional packages")])
                    continue
                if v == versions[0] and absent is None:
                    for n in imp.order:
                        if n in named:
                            continue
                        named.add(n)
                        m = p.modules[n]
                        for name, fn, line in free_names(m):
                            ctx.oblige("name")
                            if name not in imp.names[n] and not hasattr(builtins, name) and name not in MODULE_NAMES:
                                ctx.report("global-names", n + "." + fn, f"name {name} does not exist at run time", f"{m.path}:{line}")
    # imports inside functions
    for m in p.modules.values():
        for f in ast.walk(m.tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for s in f.body:
                for v in versions:
                    imp = Importer(p, v, std, required, None)
                    local(ctx, imp, m, [s], v, f, optional)
    for m in p.modules.values():
        for line in new_strings(m):
            if versions[0] < (3, 12):
                ctx.report("versions", m.name, "an f-string that Python %d.%d cannot read" % versions[0], f"{m.path}:{line}")
    found = {v: f.result() for v, f in checked.items()}
    whole = [e for e, stop in found.values() if not stop]
    for v, (errs, stop) in found.items():
        ctx.oblige("typed version")
        for key, msg in errs.items():
            if not stop and all(key in e for e in whole):
                continue
            path, line, code = key
            if guarded(p, path, line):
                continue
            if stop and code != "syntax" and any(key in e for e in whole):
                continue
            ctx.report("versions", path[:-3].replace("/", "."), "Python %d.%d: %s" % (v + (msg,)), f"{path}:{line}")
    ctx.info["declared_versions"] = ["%d.%d" % v for v in versions]
    ctx.info["public_modules"] = sorted(public)
    ctx.need("import", 200)
    ctx.need("name", 300)
    ctx.need("typed version", 4)


def guarded(p, path, line):
    """is the line in a try statement that expects the feature to be absent"""
    for m in p.modules.values():
        if m.path == path:
            for t in ast.walk(m.tree):
                if isinstance(t, ast.Try) and t.lineno <= line <= t.end_lineno:
                    names = {x for h in t.handlers for x in (re.findall(r"\w+", ast.unparse(h.type)) if h.type is not None else ["BaseException"])}
                    if names & (IMPORT_ERRORS | {"AttributeError", "NameError"}):
                        return True
    return False


def local(ctx, imp, m, body, v, f, optional):
    """imports made when a function runs"""
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            ctx.oblige("local import")
            try:
                imp.third = {}
                imp.names = {}
                imp.stmt(m, s, set(), True, None)
                for top, at in imp.third.items():
                    if at.startswith(m.path + ":") and top not in optional | {"python_multipart", "multipart", "yaml"}:
                        ctx.report("dependencies", f"{m.name}.{f.name}", f"package {top} is not a declared dependency", at)
            except Missing as e:
                ctx.report("versions" if e.kind == "version" else "dependencies" if e.kind == "dependency" else "imports-alone", f"{m.name}.{f.name}", e.text, e.at)
        elif isinstance(s, ast.If):
            t = imp.test(s.test)
            local(ctx, imp, m, (s.body if t is not False else []) + (s.orelse if t is not True else []), v, f, optional)
        elif isinstance(s, ast.Try):
            guarded = any(h.type is None or set(re.findall(r"\w+", ast.unparse(h.type))) & IMPORT_ERRORS for h in s.handlers)
            local(ctx, imp, m, ([] if guarded else s.body) + s.orelse + s.finalbody + [x for h in s.handlers for x in h.body], v, f, optional)
        else:
            for field in ("body", "orelse"):
                sub = getattr(s, field, None)
                if isinstance(sub, list):
                    local(ctx, imp, m, sub, v, f, optional)
