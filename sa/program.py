"""Program model: every module of /repo/starlette parsed from the working tree, names resolved through imports,
classes with their method-resolution order, functions with decorators."""
from __future__ import annotations

import ast
import os
import sys

from .norm import normalise
from .values import *


class ClassInfo:
    def __init__(self, name, qual, module, node):
        self.name = name
        self.qual = qual
        self.module = module
        self.node = node
        self.bases = []          # values: V('cls') or Ext
        self.methods = {}        # name -> (kind, FnInfo) kind: fn|property|static|class|setter
        self.attrs = {}          # name -> ast expr
        self.annots = []         # ordered annotated names (dataclass / NamedTuple fields)
        self.kind = "class"
        self._mro = None

    def mro(self):
        """list of ClassInfo or Ext V in resolution order (C3)"""
        if self._mro is None:
            self._mro = [self]  # guards recursion
            seqs = []
            for b in self.bases:
                if b.tag == "cls":
                    seqs.append(list(b.a[0].mro()))
                else:
                    seqs.append([b])
            seqs.append([b.a[0] if b.tag == "cls" else b for b in self.bases])
            res = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                for s in seqs:
                    if c in s:
                        s.remove(c)
            self._mro = res
        return self._mro

    def mro_names(self):
        out = []
        for c in self.mro():
            out.append(c.qual if isinstance(c, ClassInfo) else c.a[0])
        return out

    def find(self, name):
        """(owner, kind, thing)"""
        for c in self.mro():
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    k, f = c.methods[name]
                    return c, k, f
                if name in c.attrs:
                    return c, "attr", c.attrs[name]
        return None

    def __repr__(self):
        return f"<class {self.qual}>"


def Cls(ci):
    return mk("cls", (ci,))


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = normalise(ast.parse(src, filename=path))
        self.defs = {}      # name -> ('fn', FnInfo) | ('cls', ClassInfo) | ('expr', node) | ('import', qual) | ('mod', qual)
        self.is_pkg = path.endswith("__init__.py")


class AnchorError(Exception):
    """a construct the check must find has vanished: analysis broken"""


def _static_test(node):
    """decide module-level conditionals (TYPE_CHECKING, version guards)"""
    s = ast.unparse(node)
    if "TYPE_CHECKING" in s:
        return False
    if isinstance(node, ast.Compare) and ast.unparse(node.left) == "sys.version_info" and len(node.ops) == 1:
        try:
            c = ast.literal_eval(node.comparators[0])
        except Exception:
            return None
        cur = sys.version_info[: len(c)]
        op = node.ops[0]
        if isinstance(op, ast.GtE):
            return cur >= c
        if isinstance(op, ast.Lt):
            return cur < c
        if isinstance(op, ast.Gt):
            return cur > c
        if isinstance(op, ast.LtE):
            return cur <= c
    return None


class Program:
    def __init__(self, root="/repo", pkg="starlette"):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnchorError(f"package directory {base} not found")
        for d, _, files in os.walk(base):
            if "__pycache__" in d:
                continue
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    with open(p, encoding="utf-8") as fh:
                        self.modules[rel] = Module(rel, os.path.relpath(p, root), fh.read())
        self.fn_by_node = {}
        self.cls_by_node = {}
        self.node_ids = {}
        self.node_mod = {}
        self.client = None
        n = 0
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                n += 1
                self.node_ids[node] = n
                self.node_mod[node] = m
        for m in self.modules.values():
            self._collect(m, m.tree.body, m.defs)
        self._resolve_bases()
        self.mixins = self._add_mixins()

    def _add_mixins(self):
        """the mixin methods of collections.abc, interpreted like the package itself"""
        m = Module("collections.abc.model", "<collections.abc>", MIXINS)
        for i, node in enumerate(ast.walk(m.tree)):
            self.node_ids[node] = 20_000_000 + i
            self.node_mod[node] = m
        self._collect(m, m.tree.body, m.defs)
        get = lambda name: m.defs[name][1].methods
        plain = lambda name: {k: v[1] for k, v in get(name).items()}
        mp, mm, sq = plain("Mapping"), plain("MutableMapping"), plain("Sequence")
        return {f"{pre}.{n}": d for pre in ("typing", "collections.abc") for n, d in (("Mapping", mp), ("MutableMapping", {**mp, **mm}), ("Sequence", sq))}

    def mixin(self, ci, name):
        """FnInfo of the abstract-collection mixin method `name` that class ci inherits, else None"""
        for c in ci.mro():
            if not isinstance(c, ClassInfo):
                f = self.mixins.get(c.a[0].split("[")[0], {}).get(name)
                if f is not None:
                    return f
        return None

    def add_client(self, src):
        """a representative program that uses the package through its public API, interpreted like the package itself;
        names it does not define are symbols of the environment"""
        m = self.modules["client"] = self.client = Module("client", "<client>", src)
        n = len(self.node_ids) + 10_000_000
        for node in ast.walk(m.tree):
            n += 1
            self.node_ids[node] = n
            self.node_mod[node] = m
        known = set(self.cls_by_node)
        self._collect(m, m.tree.body, m.defs)
        self._resolve_bases([ci for nd, ci in self.cls_by_node.items() if nd not in known])

    # -- collection ---------------------------------------------------------
    def _collect(self, m, body, defs):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FnInfo(s, m, f"{m.name}.{s.name}")
                fi.deco = [ast.unparse(d) for d in s.decorator_list]
                if any("overload" in d for d in fi.deco):
                    continue
                self.fn_by_node[s] = fi
                defs[s.name] = ("fn", fi)
            elif isinstance(s, ast.ClassDef):
                defs[s.name] = ("cls", self.make_class(s, m, f"{m.name}.{s.name}"))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        defs[t.id] = ("expr", s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                defs[e.id] = ("unpack", s.value, i)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    defs[s.target.id] = ("expr", s.value)
            elif isinstance(s, ast.Import):
                for al in s.names:
                    if al.asname:
                        defs[al.asname] = ("mod", al.name)
                    else:
                        top = al.name.split(".")[0]
                        defs[top] = ("mod", top)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for al in s.names:
                    defs[al.asname or al.name] = ("from", base, al.name)
            elif isinstance(s, ast.If):
                r = _static_test(s.test)
                if r is None:
                    self._collect(m, s.orelse, defs)
                    self._collect(m, s.body, defs)
                else:
                    self._collect(m, s.body if r else s.orelse, defs)
            elif isinstance(s, ast.Try):
                d2 = {}
                for h in s.handlers:
                    self._collect(m, h.body, d2)
                for k, v in d2.items():
                    defs.setdefault(k, v)
                d3 = {}
                self._collect(m, s.body, d3)
                self._collect(m, s.orelse, d3)
                self._collect(m, s.finalbody, d3)
                defs.update(d3)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                self._collect(m, s.body, defs)

    def make_class(self, s, m, qual):
        ci = ClassInfo(s.name, qual, m, s)
        self.cls_by_node[s] = ci
        ci.deco = [ast.unparse(d) for d in s.decorator_list]
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FnInfo(b, m, f"{qual}.{b.name}", ci)
                fi.deco = [ast.unparse(d) for d in b.decorator_list]
                self.fn_by_node[b] = fi
                if any("overload" in d for d in fi.deco):
                    continue
                kind = "fn"
                for d in fi.deco:
                    if d in ("property", "functools.cached_property", "cached_property"):
                        kind = "property"
                    elif d.endswith(".setter"):
                        kind = "setter"
                    elif d == "staticmethod":
                        kind = "static"
                    elif d == "classmethod":
                        kind = "class"
                if kind == "setter":
                    ci.methods[b.name + ".setter"] = ("setter", fi)
                else:
                    ci.methods[b.name] = (kind, fi)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = b.value
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                ci.annots.append((b.target.id, b.value))
                if b.value is not None:
                    ci.attrs[b.target.id] = b.value
        return ci

    def _resolve_bases(self, which=None):
        which = list(self.cls_by_node.values()) if which is None else which
        for ci in which:
            for b in ci.node.bases:
                x = b
                if isinstance(x, ast.Subscript):
                    x = x.value
                v = self.resolve_static(ci.module, x)
                if v is None:
                    v = Ext("?" + ast.unparse(x))
                ci.bases.append(v)
        for ci in which:
            names = ci.mro_names()
            if "enum.Enum" in names:
                ci.kind = "enum"
            elif "typing.NamedTuple" in names:
                ci.kind = "namedtuple"
            elif any("dataclass" in d for d in ci.deco):
                ci.kind = "dataclass"
            elif "builtins.BaseException" in names or any(
                n.startswith("builtins.") and isinstance(getattr(__import__("builtins"), n[9:], None), type)
                and issubclass(getattr(__import__("builtins"), n[9:]), BaseException) for n in names
            ):
                ci.kind = "exception"

    # -- static resolution (names and dotted attributes only) ---------------
    def resolve_static(self, m, node):
        if isinstance(node, ast.Name):
            return self.lookup_global(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_static(m, node.value)
            if b is None:
                return None
            return self.static_attr(b, node.attr)
        return None

    def static_attr(self, b, attr):
        if b.tag == "mod":
            q = b.a[0]
            if q in self.modules:
                mm = self.modules[q]
                if attr in mm.defs:
                    return self.lookup_global(mm, attr)
                if f"{q}.{attr}" in self.modules:
                    return Mod(f"{q}.{attr}")
                return None
            return Ext(f"{q}.{attr}")
        if b.tag == "ext":
            return Ext(f"{b.a[0]}.{attr}")
        return None

    def lookup_global(self, m, name):
        """value for a module-global name or None when it needs evaluation/unknown.  Expressions return ('expr', node)"""
        d = m.defs.get(name)
        if d is None:
            import builtins
            if hasattr(builtins, name):
                return Ext("builtins." + name)
            return None
        if d[0] == "fn":
            return Fn(d[1], None)
        if d[0] == "cls":
            return Cls(d[1])
        if d[0] == "mod":
            return Mod(d[1])
        if d[0] == "from":
            return self.resolve_from(d[1], d[2])
        if d[0] == "expr":
            # simple alias
            if isinstance(d[1], (ast.Name, ast.Attribute)):
                r = self.resolve_static(m, d[1])
                if r is not None:
                    return r
            return mk("gexpr", (m.name, name))
        if d[0] == "unpack":
            return mk("gexpr", (m.name, name))
        return None

    def resolve_from(self, base, name):
        if base in self.modules:
            mm = self.modules[base]
            if name in mm.defs:
                return self.lookup_global(mm, name)
            if f"{base}.{name}" in self.modules:
                return Mod(f"{base}.{name}")
            return Ext(f"{base}.{name}")
        if f"{base}.{name}" in self.modules:
            return Mod(f"{base}.{name}")
        q = f"{base}.{name}"
        return Ext(q)

    # -- anchors -----------------------------------------------------------
    def module(self, name):
        if name not in self.modules:
            raise AnchorError(f"module {name} not found")
        return self.modules[name]

    def all_classes(self):
        """module-level classes: qual -> ClassInfo (definitions only, not re-exports)"""
        out = {}
        for ci in self.cls_by_node.values():
            out[ci.qual] = ci
        return out

    def cls(self, qual):
        mod, name = qual.rsplit(".", 1)
        m = self.module(mod)
        v = self.lookup_global(m, name)
        if v is None or v.tag != "cls":
            raise AnchorError(f"class {qual} not found")
        return v.a[0]

    def fn(self, qual):
        mod, name = qual.rsplit(".", 1)
        if mod in self.modules:
            v = self.lookup_global(self.modules[mod], name)
            if v is None or v.tag != "fn":
                raise AnchorError(f"function {qual} not found")
            return v.a[0]
        ci = self.cls(mod)
        r = ci.find(name)
        if r is None or r[1] == "attr":
            raise AnchorError(f"method {qual} not found")
        return r[2]

    def loc(self, node):
        m = self.node_mod.get(node)
        return f"{m.path if m else '?'}:{getattr(node, 'lineno', 0)}"

    def issub(self, a, b):
        """class-name subclass relation: True/False/None(unknown)"""
        a, b = EXT_ALIAS.get(a, a), EXT_ALIAS.get(b, b)
        if a == b or b == "builtins.object":
            return True
        ra = self._names(a)
        if b in ra:
            return True
        return False

    def _names(self, q):
        import builtins
        if q.startswith("builtins."):
            c = getattr(builtins, q[9:], None)
            if isinstance(c, type):
                return ["builtins." + k.__name__ for k in c.__mro__]
            return [q]
        if q in EXT_BASES:
            r = [q]
            for b in EXT_BASES[q]:
                r += self._names(b)
            return r
        mod, _, name = q.rpartition(".")
        if mod in self.modules:
            v = self.lookup_global(self.modules[mod], name)
            if v is not None and v.tag == "cls":
                out = []
                for n in v.a[0].mro_names():
                    out.append(n)
                    if not n.startswith(("starlette.", "client.")):
                        out += self._names(n)
                return out
        return [q]


MIXINS = '''
class Mapping:
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True

    def keys(self):
        return [key for key in self]

    def items(self):
        return [(key, self[key]) for key in self]

    def values(self):
        return [self[key] for key in self]

    def __eq__(self, other):
        if not hasattr(other, "items"):
            return False
        return dict(self.items()) == dict(other.items())


class MutableMapping:
    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if not default:
                raise
            return default[0]
        else:
            del self[key]
            return value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default

    def update(self, *args, **kwds):
        for other in args:
            if hasattr(other, "keys"):
                for key in other.keys():
                    self[key] = other[key]
            else:
                for key, value in other:
                    self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def clear(self):
        for key in list(self):
            del self[key]


class Sequence:
    def __contains__(self, value):
        for item in self:
            if item is value or item == value:
                return True
        return False
'''

EXT_BASES = {
    "anyio.EndOfStream": ["builtins.Exception"],
    "anyio.BrokenResourceError": ["builtins.Exception"],
    "anyio.ClosedResourceError": ["builtins.Exception"],
    "anyio.WouldBlock": ["builtins.Exception"],
    "itsdangerous.exc.BadData": ["builtins.Exception"],
    "itsdangerous.exc.BadSignature": ["itsdangerous.exc.BadData"],
    "itsdangerous.exc.BadTimeSignature": ["itsdangerous.exc.BadSignature"],
    "itsdangerous.exc.SignatureExpired": ["itsdangerous.exc.BadTimeSignature"],
    "itsdangerous.SignatureExpired": ["itsdangerous.BadSignature"],
    "itsdangerous.BadTimeSignature": ["itsdangerous.BadSignature"],
    "itsdangerous.BadData": ["builtins.Exception"],
    "json.JSONDecodeError": ["builtins.ValueError"],
    "json.decoder.JSONDecodeError": ["builtins.ValueError"],
    "binascii.Error": ["builtins.ValueError"],
    "concurrent.futures.CancelledError": ["builtins.Exception"],
    "ext.Cancelled": ["builtins.BaseException"],
    "python_multipart.exceptions.FormParserError": ["builtins.ValueError"],
    "python_multipart.multipart.MultipartParseError": ["builtins.ValueError"],
}

EXT_ALIAS = {"itsdangerous." + n: "itsdangerous.exc." + n for n in ("BadData", "BadSignature", "BadTimeSignature", "SignatureExpired", "BadPayload", "BadHeader")}
EXT_ALIAS.update({"json.decoder.JSONDecodeError": "json.JSONDecodeError", "binascii.Incomplete": "binascii.Error", "builtins.IOError": "builtins.OSError", "builtins.EnvironmentError": "builtins.OSError"})
