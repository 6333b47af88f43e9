"""Path-sensitive abstract interpreter over the Python syntax tree.

It walks every control-flow path of the analysed functions with abstract values (values.py), keeps a set of facts per
path (a non-relational lattice: known constant, excluded constants, truth of canonical atoms, class membership), prunes
paths whose facts contradict each other by lattice meet, and runs loops to a fixpoint with widening.  No analysed code is
executed and no constraint solver is involved.
"""
from __future__ import annotations

import ast
import math
import time

from .program import *
from . import rex, strs
from .values import *

sysrec = __import__("sys")
sysrec.setrecursionlimit(20000)


class Obj:
    __slots__ = ("kind", "cls", "d", "items", "base", "_k")

    def __init__(self, kind, cls=None, d=None, items=(), base=None):
        self.kind = kind
        self.cls = cls
        self.d = d if d is not None else {}
        self.items = items
        self.base = base
        self._k = None

    def key(self):
        if self._k is None:
            if self.kind == "dict":
                self._k = (self.kind, self.cls, frozenset(self.d.items()), self.items, self.base)
            else:
                self._k = (self.kind, self.cls, frozenset(self.d.items()), self.items, self.base)
        return self._k

    def put(self, k, v):
        d = dict(self.d)
        d[k] = v
        return Obj(self.kind, self.cls, d, self.items, self.base)

    def rem(self, k):
        d = dict(self.d)
        d.pop(k, None)
        return Obj(self.kind, self.cls, d, self.items, self.base)

    def with_items(self, items):
        return Obj(self.kind, self.cls, self.d, tuple(items), self.base)


class Fact:
    __slots__ = ("eq", "ne", "tr", "isa", "nota")

    def __init__(self, eq=None, ne=frozenset(), tr=None, isa=frozenset(), nota=frozenset()):
        self.eq = eq
        self.ne = ne
        self.tr = tr
        self.isa = isa
        self.nota = nota

    def key(self):
        return (self.eq, self.ne, self.tr, self.isa, self.nota)

    def __eq__(self, o):
        return isinstance(o, Fact) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        out = []
        if self.eq is not None:
            out.append(f"=={self.eq}")
        if self.ne:
            out.append("!=" + "/".join(sorted(map(repr, self.ne))))
        if self.tr is not None:
            out.append("truthy" if self.tr else "falsy")
        if self.isa:
            out.append("is-a " + "/".join(sorted(self.isa)))
        if self.nota:
            out.append("not-a " + "/".join(sorted(self.nota)))
        return ",".join(out)


NOFACT = Fact()


class State:
    __slots__ = ("heap", "facts", "frame", "stack", "handlers", "mon", "trace", "loops", "iterf", "frames")

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.frame = None
        self.stack = ()
        self.handlers = ()
        self.mon = {}
        self.trace = None
        self.loops = ()
        self.iterf = {}
        self.frames = ()

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.frame = self.frame
        s.stack = self.stack
        s.handlers = self.handlers
        s.mon = dict(self.mon)
        s.trace = self.trace
        s.loops = self.loops
        s.iterf = dict(self.iterf)
        s.frames = self.frames
        return s

    def note(self, loc, text):
        self.trace = (self.trace, loc, text)

    def path(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(f"{t[1]} {t[2]}")
            t = t[0]
        out.reverse()
        return out


# outcome = (kind, state, value); kinds for expressions: ok, raise, gx
# for statements: next, return, raise, break, continue, gx

PURE_M = {
    "lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition", "startswith",
    "endswith", "replace", "find", "rfind", "index", "count", "encode", "decode", "title", "casefold", "isdigit", "isdecimal", "isnumeric", "isascii", "isalpha", "isalnum", "isspace", "islower", "isupper",
    "join", "format", "keys", "values", "items", "groups", "group", "groupdict", "start", "end", "span", "match",
    "fullmatch", "search", "findall", "finditer", "hex", "isoformat", "timestamp", "splitlines", "removeprefix",
    "removesuffix", "zfill", "capitalize", "isalnum", "hexdigest", "digest", "copy", "tobytes", "as_posix",
    "getparam", "total_seconds", "_replace", "_asdict", "geturl", "intersection", "union", "difference", "issubset", "getvalue", "translate",
}
PURE_EXT = {
    "os.path.join", "os.path.realpath", "os.path.commonpath", "os.path.normpath", "os.path.abspath",
    "os.path.basename", "os.path.dirname", "os.fspath", "re.escape", "re.compile", "urllib.parse.quote",
    "urllib.parse.unquote", "urllib.parse.urlencode", "urllib.parse.parse_qsl", "urllib.parse.urlsplit",
    "urllib.parse.quote_plus", "urllib.parse.unquote_plus", "urllib.parse.urljoin", "urllib.parse.urlparse",
    "base64.b64encode", "base64.b64decode", "json.dumps", "json.loads", "html.escape", "email.utils.formatdate",
    "email.utils.format_datetime", "email.utils.parsedate", "mimetypes.guess_type", "hashlib.md5", "os.stat.S_ISREG",
    "stat.S_ISREG", "stat.S_ISDIR", "inspect.iscoroutinefunction", "inspect.isfunction", "inspect.ismethod",
    "inspect.isasyncgenfunction", "inspect.isgeneratorfunction", "inspect.isclass", "builtins.abs", "builtins.round", "builtins.hash",
    "builtins.id", "builtins.ord", "builtins.chr", "builtins.float", "builtins.int", "builtins.bool",
    "http.HTTPStatus", "math.isnan", "typing.TypeVar", "types.MappingProxyType", "http.cookies._unquote",
    "inspect.signature", "inspect.getdoc", "shlex.shlex", "itsdangerous.TimestampSigner", "builtins.memoryview",
    "builtins.bytes", "builtins.bytearray", "builtins.complex", "decimal.Decimal", "uuid.UUID", "builtins.repr",
    "builtins.vars", "builtins.frozenset", "importlib.util.find_spec", "builtins.dir",
}
_STRM = {"lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition", "startswith",
         "endswith", "replace", "encode", "decode", "title", "casefold", "isdigit", "isdecimal", "isnumeric", "isascii", "isalpha", "isalnum", "isspace", "islower", "isupper", "join", "format", "splitlines",
         "removeprefix", "removesuffix", "zfill", "capitalize"}
FOLD_STR = {
    "lower", "upper", "strip", "lstrip", "rstrip", "split", "startswith", "endswith", "replace", "encode", "decode",
    "title", "casefold", "join", "isdigit", "isdecimal", "isnumeric", "isascii", "isalpha", "isalnum", "isspace", "islower", "isupper", "partition", "rpartition", "removeprefix", "removesuffix", "find", "index", "rsplit", "rfind", "rindex", "count", "splitlines", "zfill", "swapcase", "capitalize",
}
NO_RAISE = {
    "builtins.isinstance", "builtins.len", "builtins.str", "builtins.repr", "builtins.bool", "builtins.hasattr",
    "builtins.getattr", "builtins.callable", "builtins.type", "builtins.super", "builtins.any", "builtins.all",
    "builtins.list", "builtins.tuple", "builtins.dict", "builtins.set", "builtins.enumerate", "builtins.zip",
    "builtins.reversed", "builtins.sorted", "builtins.min", "builtins.max", "builtins.id", "builtins.print",
    "typing.cast", "functools.partial", "warnings.warn", "builtins.iter", "builtins.range", "builtins.map",
    "inspect.iscoroutinefunction", "inspect.isfunction", "inspect.ismethod", "re.escape", "traceback.format_exc",
    "anyio.Event", "anyio.create_memory_object_stream", "html.escape",
}
ENC = {"utf8": "utf-8", "utf-8": "utf-8", "latin-1": "latin-1", "latin1": "latin-1", "iso-8859-1": "latin-1",
       "ascii": "ascii", "us-ascii": "ascii"}


DEADLINE = [float("inf")]


class Unsuspendable(Exception):
    """a generator whose yield sits in a construct cm_step does not follow"""


class Cut(Exception):
    pass


class Stop(BaseException):
    """the whole analysis ends here: enough violations were found, or its time is used up"""


class Engine:
    def __init__(self, prog, env=None, max_steps=3_000_000):
        self.p = prog
        self.env = env
        self.steps = 0
        self.max_steps = max_steps
        self.models = {}
        self.findings = {}
        self.lvvals = {}      # values merged into a loop / join variable
        self.fns_seen = {}
        self.sites = set()
        self.loopcuts = set()
        self.yieldh = {}
        self.obligations = {}
        self.npaths = 0
        self.gcache = {}
        self.raise_any = False
        self.active = []
        self.maxrec = 3        # nested activations of one function
        self.held = []
        self.global_keys = set()    # modules whose globals are assigned by functions
        self.dead_names = {}
        self.join_heads = 16
        self.coarse = False         # do not distinguish the alternatives under which an element was produced
        self.join_sync = None      # join the outcomes of synchronous calls beyond this number
        self.unroll = 8
        self.cls_attrs = False  # some class attribute was assigned
        self.concrete = 0       # while loops with a decided test are run this often before they are summarised
        self.exact = 0             # loop rounds without widening (bounded scripted environments)
        self.class_attr_sym = {}   # (class qual, attr) -> symbolic override
        self.assert_assume = True
        self.notes = []
        from . import lib
        lib.install(self)

    # ------------------------------------------------------------------ util
    def nid(self, node):
        return self.p.node_ids.get(node, 0) if not isinstance(node, str) else node

    def loc(self, node):
        return self.p.loc(node) if not isinstance(node, str) else node

    def report(self, rule, construct, st, msg, node=None):
        k = (rule, construct, msg)
        if k not in self.findings:
            self.findings[k] = {
                "rule": rule, "construct": construct, "message": msg,
                "at": self.loc(node) if node is not None else None,
                "path": st.path()[-40:] if st is not None else [],
            }

    def oblige(self, name, n=1):
        """count an obligation (a rule instance examined)"""
        self.obligations[name] = self.obligations.get(name, 0) + n

    def site(self, st, node):
        return (self.nid(node),) + st.stack[-12:]

    def marks(self, st):
        return tuple(LoopMark(l, 0) for l in st.loops)

    def alloc(self, st, node, obj):
        n = 0
        base = (self.nid(node), st.stack[-12:], self.marks(st))
        while True:
            r = mk("ref", (self.nid(node), st.stack[-12:], self.marks(st), n))
            if r not in st.heap:
                break
            n += 1
        st.heap[r] = obj
        return r

    def fresh(self, st, name, args, node):
        args = tuple(args)
        n = 0
        cnt = st.mon.get("__fresh", ())
        return T("res", name, args, (self.nid(node), st.stack[-12:]), self.marks(st))

    def new_list(self, st, node, items):
        return self.alloc(st, node, Obj("list", items=tuple(items)))

    def new_dict(self, st, node, d, base=None):
        return self.alloc(st, node, Obj("dict", d=dict(d), base=base))

    def new_inst(self, st, node, cls, fields=None):
        return self.alloc(st, node, Obj("inst", cls=cls, d=dict(fields or {})))

    def rest(self, src, tmpl=None):
        return mk("rest", (src, tmpl))

    def O(self, st, v):
        return st.heap[v] if v.tag == "ref" else None

    # ------------------------------------------------------------------ facts
    def fact(self, st, t):
        return st.facts.get(t, NOFACT)

    def truth(self, st, v):
        """True / False / None"""
        tag = v.tag
        if tag == "c":
            return bool(v.a[1])
        if tag == "ref":
            o = st.heap.get(v)
            if o is None:
                return None
            if o.kind in ("list", "set"):
                known = [x for x in o.items if x.tag != "rest"]
                if known:
                    return True
                if not o.items:
                    return False
                if len(o.items) == 1 and o.items[0].a[1] is None:
                    return self.truth(st, o.items[0].a[0])
                return self._tf(st, T("nonempty", *o.items))
            if o.kind == "dict":
                if any(x is not ABSENT for x in o.d.values()):
                    return True
                if o.base is None:
                    return False
                return self.truth(st, o.base)
            if o.kind == "inst":
                if isinstance(o.cls, ClassInfo):
                    if o.cls.find("__bool__") or o.cls.find("__len__"):
                        return self._tf(st, T("truthobj", v))
                    return True
                return True
            return True
        if tag == "tup":
            return bool(v.a)
        if tag in ("fn", "bound", "cls", "ext", "mod", "bm", "part", "enum", "coro", "gen", "cm", "cmfn"):
            return True
        if tag == "t":
            op = v.a[0]
            if op == "not":
                r = self.truth(st, v.a[1])
                return None if r is None else not r
            if op == "and":
                rs = [self.truth(st, x) for x in v.a[1:]]
                if any(r is False for r in rs):
                    return False
                return True if all(r is True for r in rs) else None
            if op == "or":
                rs = [self.truth(st, x) for x in v.a[1:]]
                if any(r is True for r in rs):
                    return True
                return False if all(r is False for r in rs) else None
            if op == "eq":
                return self.eq_truth(st, v.a[1], v.a[2])
            if op == "isinstance":
                return self.isa_truth(st, v.a[1], v.a[2])
            if op == "concat":
                if any(is_c(x) and x.a[1] for x in v.a[1:]):
                    return True
            if op == "len":
                return self.truth(st, v.a[1])
            if op == "exc":
                return True
            return self._tf(st, v)
        return None

    def _tf(self, st, t):
        f = st.facts.get(t)
        if f is None:
            return None
        if f.eq is not None and is_c(f.eq):
            return bool(cval(f.eq))
        if f.tr is not None:
            return f.tr
        if f.eq is not None and f.eq.tag == "t" and f.eq is not t:
            return self.truth(st, f.eq)
        if f.isa & _ALWAYS_TRUE:
            return True
        return None

    def eq_truth(self, st, a, b):
        if a is b:
            return True
        if is_c(a) and is_c(b):
            return a.a[1] == b.a[1] if type(a.a[1]) is type(b.a[1]) or isinstance(a.a[1], (int, float)) and isinstance(b.a[1], (int, float)) else False
        for x, y in ((a, b), (b, a)):
            if x.tag == "t":
                f = st.facts.get(x)
                if f is not None:
                    if f.eq is not None:
                        r = self.eq_truth(st, f.eq, y)
                        if r is not None:
                            return r
                    if y in f.ne:
                        return False
                    if is_c(y):
                        if f.tr is True and not cval(y):
                            return False
                        if f.tr is False and cval(y):
                            return False
                        ty = "builtins." + type(cval(y)).__name__
                        if y is NONE:
                            if f.isa:
                                return False
                        elif f.isa and not any(self.p.issub(ty, i) for i in f.isa) and all(i.startswith("builtins.") for i in f.isa):
                            return False
                        if any(self.p.issub(ty, i) for i in f.nota):
                            return False
                if y is NONE and (x.a[0] in _NOTNONE or x.a[0] == "call" and x.a[1] in _NOTNONE_CALLS or x.a[0] == "m" and x.a[1] in _STRM):
                    return False
                if x.a[0] == "concat" and is_c(y) and isinstance(cval(y), (str, bytes)):
                    if concat_cannot_be(x, cval(y)):
                        return False
        if is_t(a, "concat") or is_t(b, "concat"):
            r = strs.eq(self, st, a, b)
            if r is not None:
                return r
        if a.tag == "tup" and b.tag == "tup":
            if len(a.a) != len(b.a):
                return False
            rs = [self.eq_truth(st, x, y) for x, y in zip(a.a, b.a)]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if a.tag == "enum" and b.tag == "enum":
            return a is b
        if a.tag in ("cls", "ext") and b.tag in ("cls", "ext") and all(x.tag == "cls" or builtin_class(x.a[0]) for x in (a, b)):
            return False       # two different classes
        solid = ("ref", "fn", "bound", "cls", "ext", "tup", "enum", "part", "bm", "coro", "mod", "gen", "cm", "cmfn")
        if (a.tag in solid and is_c(b)) or (b.tag in solid and is_c(a)):
            o = a if a.tag in solid else b
            if o.tag == "ref":
                ob = st.heap.get(o)
                if ob is not None and ob.kind == "inst" and isinstance(ob.cls, ClassInfo) and ob.cls.find("__eq__"):
                    c = b if o is a else a
                    if c is NONE:
                        return False
                    return self._tf(st, eqt(a, b))
            return False
        for x, y in ((a, b), (b, a)):
            if x.tag == "ref" and y.tag in ("tup", "ref") and x in st.heap and st.heap[x].kind == "inst" and isinstance(st.heap[x].cls, ClassInfo) and st.heap[x].cls.kind == "namedtuple" and not st.heap[x].cls.find("__eq__"):
                if y.tag == "tup":
                    return self.eq_truth(st, Tup([st.heap[x].d[nm] for nm, _ in st.heap[x].cls.annots]), y)
        if a.tag in solid and b.tag in solid and a.tag != b.tag:
            return False
        if a.tag == b.tag == "fn" and a.a[0] is not b.a[0]:
            return False       # two different definitions
        if a.tag == b.tag == "bound" and a.a[1].tag == b.a[1].tag == "fn" and a.a[1].a[0] is not b.a[1].a[0]:
            return False
        if a.tag == "ref" and b.tag == "ref":
            oa, ob = st.heap.get(a), st.heap.get(b)
            if oa is not None and ob is not None and oa.kind == "set" and ob.kind == "set" and all(is_c(x) for x in oa.items + ob.items):
                return {cval(x) for x in oa.items} == {cval(x) for x in ob.items}
            if oa is not None and ob is not None and oa.kind == "inst" and ob.kind == "inst":
                if isinstance(oa.cls, ClassInfo) and (not oa.cls.find("__eq__") and self.p.mixin(oa.cls, "__eq__") is None or self.plain_eq(oa.cls)):
                    return a is b
        return self._tf(st, eqt(a, b))

    def plain_eq(self, ci):
        """is `__eq__` of the class that of object"""
        r = ci.find("__eq__")
        return r is not None and r[1] not in ("fn", "static", "class", "property") and isinstance(r[2], ast.Attribute) and r[2].attr == "__eq__" and self.p.resolve_static(r[0].module, r[2].value) is Ext("builtins.object")

    def type_of(self, st, v):
        """qualname of the class of v if known"""
        if is_c(v):
            return "builtins." + type(cval(v)).__name__
        if v.tag == "tup":
            return "builtins.tuple"
        if v.tag == "ref":
            o = st.heap.get(v)
            if o is None:
                return None
            if o.kind == "inst":
                return o.cls.qual if isinstance(o.cls, ClassInfo) else o.cls.a[0]
            return "builtins." + o.kind
        if v.tag == "fn" or v.tag == "bound":
            return "types.FunctionType"
        if v.tag == "cls" or v.tag == "ext":
            return "builtins.type"
        if v.tag == "part":
            return "functools.partial"
        if v.tag == "enum":
            return v.a[0].qual
        if v.tag == "t":
            op = v.a[0]
            if op in ("concat", "str", "fmt"):
                return "builtins.bytes" if op == "concat" and any(is_c(x) and isinstance(cval(x), bytes) for x in v.a[1:]) else "builtins.str"
            if op == "m" and v.a[1] == "encode":
                return "builtins.bytes"
            if op == "m" and v.a[1] in ("decode", "lower", "upper", "strip", "lstrip", "rstrip", "format"):
                return None
            if op in ("eq", "lt", "not", "in", "isinstance", "hasattr", "and", "or"):
                return "builtins.bool"
            if op in ("len", "sum"):
                return "builtins.int"
            if op == "call" and v.a[1] == "builtins.int":
                return "builtins.int"
            if op == "exc":
                return None
        return None

    def isa_truth(self, st, v, cls):
        """isinstance(v, cls qualname)"""
        ty = self.type_of(st, v)
        if ty is not None:
            if self.p.issub(ty, cls):
                return True
            if ty in _DUCK and cls in _DUCK[ty]:
                return True
            if cls in _ABC:
                o = st.heap.get(v) if v.tag == "ref" else None
                if o is not None and o.kind == "inst" and isinstance(o.cls, ClassInfo):
                    return all(o.cls.find(n) for n in _ABC[cls])
                if o is not None and o.kind in ("list", "dict", "set"):
                    return _ABC[cls] in (("__iter__",), ("__len__",), ("__contains__",))
                if ty not in ("builtins.list", "builtins.str", "builtins.bytes", "builtins.dict"):
                    return None
                return _ABC[cls] in (("__iter__",), ("__len__",), ("__contains__",))
            return False
        if v.tag == "gen":
            if cls in ("typing.AsyncIterable", "collections.abc.AsyncIterable", "typing.AsyncIterator"):
                return v.a[0] == "async"
            return v.a[0] == "sync" and cls.rpartition(".")[2] in ("Iterable", "Iterator", "Generator")
        if v.tag == "t":
            if v.a[0] == "exc":
                known = v.a[1]
                if self.p.issub(known, cls):
                    return True
                if cls.endswith("ExceptionGroup"):
                    return False
            f = st.facts.get(v)
            if f is not None:
                if f.eq is not None and (is_c(f.eq)):
                    return self.isa_truth(st, f.eq, cls)
                for k in f.isa:
                    if self.p.issub(k, cls):
                        return True
                for k in f.nota:
                    if self.p.issub(cls, k):
                        return False
                for k in f.isa:
                    if k in _LEAF and cls in _LEAF:
                        return False
            if v.a[0] == "exc" and not self.p.issub(cls, v.a[1]) and v.a[1] not in ("builtins.Exception", "builtins.BaseException"):
                # unrelated concrete exception classes are taken as disjoint
                return False
        return None

    def branch(self, st, v):
        """list of (bool, state)"""
        r = self.truth(st, v)
        if r is not None:
            return [(r, st)]
        if v.tag == "ref":
            bs = self.as_bool(st, v)
            if bs is not None:
                return [x for s, t in bs for x in self.branch(s, t)]
        if is_t(v, "not") and v.a[1].tag == "ref":
            return [(not b, s) for b, s in self.branch(st, v.a[1])]
        out = []
        s2 = st.fork()
        for s in self.assume(st, v, True):
            out.append((True, s))
        for s in self.assume(s2, v, False):
            out.append((False, s))
        return out

    def as_bool(self, st, v):
        """[(state, term of the truth value)] of an instance that defines __bool__ or __len__, None if that is opaque"""
        o = st.heap.get(v)
        if o is None or o.kind != "inst" or not isinstance(o.cls, ClassInfo):
            return None
        f = o.cls.find("__bool__") or o.cls.find("__len__")
        if f is None or f[1] != "fn":
            return None
        outs = self.call(st.fork(), Bound(v, Fn(f[2], None)), [], {}, f[2].node)
        if any(k != "ok" or x is v for k, s, x in outs):
            return None
        return [(s, x) for k, s, x in outs]

    def assume(self, st, v, val):
        """states in which truth(v) == val ([] if contradictory)"""
        r = self.truth(st, v)
        if r is not None:
            return [st] if r == val else []
        if v.tag == "t":
            op = v.a[0]
            if op == "not":
                return self.assume(st, v.a[1], not val)
            if (op == "and" and val) or (op == "or" and not val):
                ss = [st]
                for x in v.a[1:]:
                    ss = [s2 for s in ss for s2 in self.assume(s, x, val)]
                return ss
            if op in ("and", "or"):
                # at least one operand decides; enumerate the first that does
                out = []
                cur = [st]
                for x in v.a[1:]:
                    nxt = []
                    for s in cur:
                        s2 = s.fork()
                        out.extend(self.assume(s, x, val))
                        nxt.extend(self.assume(s2, x, not val))
                    cur = nxt
                return out
            if op == "eq":
                return self.assume_eq(st, v.a[1], v.a[2], val)
            if op == "len":
                return self.assume(st, v.a[1], val)
            if op == "isinstance":
                x, cls = v.a[1], v.a[2]
                f = self.fact(st, x)
                if val:
                    if f.eq is NONE:
                        return []
                    f2 = Fact(f.eq, f.ne, f.tr, f.isa | {cls}, f.nota)
                else:
                    f2 = Fact(f.eq, f.ne, f.tr, f.isa, f.nota | {cls})
                st.facts[x] = f2
                return [st]
        if v.tag == "ref":
            o = st.heap[v]
            if o.kind == "dict" and o.base is not None:
                return self.assume(st, o.base, val)
            if o.kind in ("list", "set"):
                if len(o.items) == 1 and o.items[0].a[1] is None:
                    return self.assume(st, o.items[0].a[0], val)
                return self.assume(st, T("nonempty", *o.items), val)
            return self.assume(st, T("truthobj", v), val)
        f = self.fact(st, v)
        if val is False and v.a[0] in _BOOLOPS:
            pass
        st.facts[v] = Fact(f.eq, f.ne, val, f.isa, f.nota)
        return [st]

    def assume_eq(self, st, a, b, val):
        r = self.eq_truth(st, a, b)
        if r is not None:
            return [st] if r == val else []
        if is_c(a) and not is_c(b):
            a, b = b, a
        if a.tag == "tup" and b.tag == "tup" and len(a.a) == len(b.a):
            if val:
                ss = [st]
                for x, y in zip(a.a, b.a):
                    ss = [s2 for s in ss for s2 in self.assume_eq(s, x, y, True)]
                return ss
            out = []
            cur = [st]
            for x, y in zip(a.a, b.a):
                nxt = []
                for s in cur:
                    s2 = s.fork()
                    out.extend(self.assume_eq(s, x, y, False))
                    nxt.extend(self.assume_eq(s2, x, y, True))
                cur = nxt
            return out
        if (is_c(b) or b.tag in ("enum",)) and a.tag == "t":
            f = self.fact(st, a)
            if val and a.a[0] == "item" and a.a[2] is C(0) and is_t(a.a[1], "elem") and is_c(b) and isinstance(cval(b), bytes):
                # an element (name, ...) of a header list is present
                atom = T("hdrin", a.a[1].a[1], C(cval(b).decode("latin-1")))
                if self.truth(st, atom) is False:
                    return []
                st.facts[atom] = Fact(tr=True)
            if val:
                st.facts[a] = Fact(b, f.ne, f.tr, f.isa, f.nota)
            else:
                st.facts[a] = Fact(f.eq, f.ne | {b}, f.tr, f.isa, f.nota)
            # structural consequence: len(x) == 0
            return [st]
        t = eqt(a, b)
        f = self.fact(st, t)
        st.facts[t] = Fact(f.eq, f.ne, val, f.isa, f.nota)
        return [st]

    # ------------------------------------------------------------------ state keys
    def reach(self, st, extra=()):
        """heap keys reachable from frames, monitors, arguments of active calls and `extra`"""
        roots = list(st.frames) + [st.frame] + list(extra) + self.held
        for v in st.mon.values():
            roots.append(v)
        for v in st.iterf.items():
            pass
        seen = set()
        for g in self.global_keys:
            if g in st.heap:
                seen.add(g)
                roots.extend(st.heap[g].d.values())
        work = [r for r in roots if r is not None]
        seenv = set()
        while work:
            x = work.pop()
            if isinstance(x, V):
                if x in seenv:
                    continue
                seenv.add(x)
                if x.tag == "ref" and x in st.heap:
                    seen.add(x)
                    o = st.heap[x]
                    work.extend(o.d.values())
                    work.extend(k for k in o.d.keys() if isinstance(k, V))
                    work.extend(o.items)
                    if o.base is not None:
                        work.append(o.base)
                else:
                    work.extend(y for y in x.a if isinstance(y, (V, tuple)))
                    ak = mk("attrs", (x,))
                    if ak in st.heap:
                        seen.add(ak)
                        work.extend(st.heap[ak].d.values())
            elif isinstance(x, (tuple, list, frozenset, set)):
                work.extend(x)
            elif isinstance(x, dict):
                work.extend(x.values())
        return seen

    def drop_dead(self, st, lid):
        """forget unreachable objects allocated in an iteration of the loop"""
        seen = None
        for k in list(st.heap):
            if k.tag == "ref" and any(m.lid == lid for m in k.lp):
                if seen is None:
                    seen = self.reach(st)
                if k not in seen:
                    del st.heap[k]

    def skey(self, st, extra=(), iterf=True):
        seen = self.reach(st, extra)
        return (
            frozenset((k, o.key()) for k, o in st.heap.items() if k in seen or k.tag != "ref"),
            frozenset((k, f.key()) for k, f in st.facts.items()),
            st.frame,
            tuple(sorted(((k, v) for k, v in st.mon.items()), key=lambda kv: str(kv[0]))),
            frozenset(st.iterf.items()) if iterf else None,
            tuple(extra),
        )

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        res = []
        for o in outs:
            k = (o[0], self.skey(o[1], (o[2],) if isinstance(o[2], V) else (repr(o[2]),)))
            if k in seen:
                continue
            seen[k] = 1
            res.append(o)
        return res

    # ------------------------------------------------------------------ running
    def start_state(self):
        st = State()
        fr = mk("ref", (0, (), (), 0))
        st.heap[fr] = Obj("frame", None, {}, base=None)
        st.frame = fr
        st.frames = (fr,)
        return st

    def run_call(self, st, fv, args=(), kwargs=None, node="entry"):
        """call a value and, when it is a coroutine, await it"""
        outs = self.call(st, fv, list(args), dict(kwargs or {}), node)
        res = []
        for k, s, v in outs:
            aw = v is not None and v.tag == "ref" and s.heap[v].kind == "inst" and isinstance(s.heap[v].cls, ClassInfo) and s.heap[v].cls.find("__await__")
            if k == "ok" and (v.tag in ("coro", "envaw") or aw):
                res.extend(self.await_(s, v, node))
            else:
                res.append((k, s, v))
        return res

    def bind(self, outs, f):
        res = []
        for o in outs:
            if o[0] == "ok":
                res.extend(f(o[1], o[2]))
            else:
                res.append(o)
        return res

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        done.append(o)
            if len(nxt) > 6:
                nxt = [o[1] for o in self.dedupe([("next", x, NONE) for x in nxt])]
            cur = nxt
            if not cur:
                break
        return [("next", c, None) for c in cur] + done

    def stmt(self, s, st):
        self.steps += 1
        if not self.steps & 1023 and time.time() > DEADLINE[0]:
            raise Stop("time budget used up")
        if self.steps > self.max_steps:
            raise Cut(f"step limit {self.max_steps} reached at {self.loc(s)}")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Cut(f"unsupported statement {type(s).__name__} at {self.loc(s)}")
        return m(s, st)

    def s_Expr(self, s, st):
        return self.lift(self.ev(s.value, st))

    def lift(self, outs):
        return [("next", o[1], None) if o[0] == "ok" else o for o in outs]

    def s_Pass(self, s, st):
        return [("next", st, None)]

    def s_Global(self, s, st):
        return [("next", st, None)]

    s_Nonlocal = s_Global

    def s_Break(self, s, st):
        return [("break", st, None)]

    def s_Continue(self, s, st):
        return [("continue", st, None)]

    def s_Return(self, s, st):
        if s.value is None:
            return [("return", st, NONE)]
        return [("return", o[1], o[2]) if o[0] == "ok" else o for o in self.ev(s.value, st)]

    def s_Import(self, s, st):
        for al in s.names:
            st_set(self, st, (al.asname or al.name.split(".")[0]), Mod(al.name if al.asname else al.name.split(".")[0]))
        return [("next", st, None)]

    def s_ImportFrom(self, s, st):
        m = self.p.node_mod[s]
        base = s.module or ""
        for al in s.names:
            v = self.p.resolve_from(base, al.name)
            st_set(self, st, al.asname or al.name, v if v is not None else Ext(f"{base}.{al.name}"))
        return [("next", st, None)]

    def s_Assign(self, s, st):
        def f(st, v):
            cur = [("next", st, None)]
            for t in s.targets:
                nx = []
                for o in cur:
                    if o[0] == "next":
                        nx.extend(self.assign(t, v, o[1]))
                    else:
                        nx.append(o)
                cur = nx
            return [("ok", o[1], None) if o[0] == "next" else o for o in cur]
        return self.lift(self.bind(self.ev(s.value, st), f))

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [("next", st, None)]
        def f(st, v):
            return [("ok", o[1], None) if o[0] == "next" else o for o in self.assign(s.target, v, st)]
        return self.lift(self.bind(self.ev(s.value, st), f))

    def s_AugAssign(self, s, st):
        ld = _as_load(s.target)
        self._adopt(ld, s.target)
        def f(st, a):
            def g(st, b):
                def h(st, v):
                    return [("ok", o[1], None) if o[0] == "next" else o for o in self.assign(s.target, v, st)]
                if isinstance(s.op, ast.Add) and a.tag == "ref" and st.heap[a].kind == "list":
                    return self.bind(self.call(st, Bm(a, "extend"), [b], {}, s), lambda st, _: h(st, a))
                if a.tag == "ref" and isinstance(s.op, ast.BitOr) and st.heap[a].kind in ("dict", "set"):
                    return self.bind(self.call(st, Bm(a, "update"), [b], {}, s), lambda st, _: h(st, a))
                if a.tag == "ref" and st.heap[a].kind == "inst" and isinstance(st.heap[a].cls, ClassInfo) and type(s.op) in _OPNAMES:
                    r = st.heap[a].cls.find(f"__i{_OPNAMES[type(s.op)]}__")
                    if r and r[1] == "fn":
                        return self.bind(self.call(st, Bound(a, Fn(r[2], None)), [b], {}, s), h)
                return self.bind(self.binop(st, s.op, a, b, s), h)
            return self.bind(self.ev(s.value, st), g)
        return self.lift(self.bind(self.ev(ld, st), f))

    def _adopt(self, new, old):
        for n in ast.walk(new):
            if n not in self.p.node_ids:
                self.p.node_ids[n] = self.p.node_ids.get(old, 0)
                self.p.node_mod[n] = self.p.node_mod.get(old)

    def s_Delete(self, s, st):
        cur = [("next", st, None)]
        for t in s.targets:
            nx = []
            for o in cur:
                if o[0] != "next":
                    nx.append(o)
                    continue
                st = o[1]
                if isinstance(t, ast.Name):
                    fr = st.heap[st.frame]
                    st.heap[st.frame] = fr.rem(t.id)
                    nx.append(("next", st, None))
                elif isinstance(t, ast.Subscript):
                    nx.extend(self.lift(self.bind(self.ev(t.value, st), lambda st, b: self.bind(
                        self.ev(t.slice, st), lambda st, k: self.delitem(st, b, k, t)))))
                elif isinstance(t, ast.Attribute):
                    nx.extend(self.lift(self.bind(self.ev(t.value, st), lambda st, b, t=t: self.delattr(st, b, t.attr, t))))
                else:
                    nx.append(o)
            cur = nx
        return cur

    def s_If(self, s, st):
        res = []
        for o in self.ev(s.test, st):
            if o[0] != "ok":
                res.append(o)
                continue
            brs = self.branch(o[1], o[2])
            for b, s2 in brs:
                if len(brs) > 1:
                    s2.note(self.loc(s), f"if {_src(s.test)} -> {b}")
                res.extend(self.block(s.body if b else s.orelse, s2))
        return res

    def s_Assert(self, s, st):
        res = []
        for o in self.ev(s.test, st):
            if o[0] != "ok":
                res.append(o)
                continue
            for b, s2 in self.branch(o[1], o[2]):
                if b:
                    res.append(("next", s2, None))
                else:
                    s2.note(self.loc(s), f"assert {_src(s.test)} fails")
                    e = self.new_inst(s2, s, Ext("builtins.AssertionError"))
                    res.append(("raise", s2, e))
        return res

    def s_Raise(self, s, st):
        if s.exc is None:
            cur = self.cur_exc(st)
            return [("raise", st, cur)]

        def g(st, v):
            if s.cause is not None:
                out = []
                for k2, s2, c in self.ev(s.cause, st):
                    if k2 == "ok":
                        s2.mon["cause"] = (v, c)
                    out.append(("raise", s2, v if k2 == "ok" else c))
                return out
            return [("raise", st, v)]

        def f(st, v):
            if v.tag in ("cls", "ext"):
                return self.bind(self.call(st, v, [], {}, s), lambda st, e: g(st, e))
            return g(st, v)
        outs = self.bind(self.ev(s.exc, st), f)
        for o in outs:
            if o[0] == "raise":
                o[1].note(self.loc(s), f"raise {_src(s.exc)}")
        return outs

    def cur_exc(self, st):
        fr = st.frame
        while fr is not None:
            e = st.heap[fr].d.get("$exc")
            if e is not None:
                return e
            fr = None
        e = st.mon.get("$exc")
        return e if e is not None else T("exc", "builtins.BaseException", "unknown")

    def s_FunctionDef(self, s, st):
        info = self.p.fn_by_node.get(s)
        if info is None:
            encl = st.heap[st.frame].cls
            q = (encl.qual + ".<locals>." if encl else "") + s.name
            info = FnInfo(s, self.p.node_mod[s], q, None)
            info.deco = [ast.unparse(d) for d in s.decorator_list]
            self.p.fn_by_node[s] = info
        outs = self.closure(st, info, s)
        for d in reversed(s.decorator_list):
            outs = self.bind(outs, lambda st, fv, d=d: self.decorate(st, d, fv))
        return self.lift(self.bind(outs, lambda st, v: [("ok", st_set(self, st, s.name, v), NONE)]))

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, st, d, fv):
        def f(st, dv):
            if dv.tag == "t" and dv.a[0] == "wraps":
                return [("ok", st, fv)]
            if dv.tag == "ext" and dv.a[0] in ("contextlib.contextmanager", "contextlib.asynccontextmanager"):
                return [("ok", st, mk("cmfn", (fv,)))]
            if dv.tag == "ext" and dv.a[0] in ("builtins.staticmethod", "typing.no_type_check"):
                return [("ok", st, fv)]
            return self.call(st, dv, [fv], {}, d)
        return self.bind(self.ev(d, st), f)

    def s_ClassDef(self, s, st):
        ci = self.p.cls_by_node.get(s)
        if ci is None:
            ci = self.p.make_class(s, self.p.node_mod[s], "local." + s.name)
            for b in s.bases:
                x = b.value if isinstance(b, ast.Subscript) else b
                o = self.ev(x, st)
                ci.bases.append(o[0][2] if o and o[0][0] == "ok" else Ext("?"))
        st_set(self, st, s.name, Cls(ci))
        return [("next", st, None)]

    def s_Try(self, s, st):
        names = set()
        saved = st.handlers
        outs_pre = []
        hclasses = []
        # evaluate handler classes in the starting state (they are static names)
        for h in s.handlers:
            hclasses.append(self.handler_classes(h, st))
        for hc in hclasses:
            names.update(hc)
        if names:
            st.handlers = saved + (frozenset(names),)
        outs = self.block(s.body, st)
        res = []
        for k, s2, v in outs:
            s2.handlers = saved
            if k == "raise" and s.handlers:
                res.extend(self.handle(s, hclasses, s2, v))
            elif k == "next" and s.orelse:
                res.extend(self.block(s.orelse, s2))
            else:
                res.append((k, s2, v))
        if s.finalbody:
            fin = []
            for k, s2, v in self.dedupe(res):
                for o in self.block(s.finalbody, s2):
                    if o[0] == "next":
                        fin.append((k, o[1], v))
                    else:
                        fin.append(o)
            res = fin
        return res

    def handler_classes(self, h, st):
        if h.type is None:
            return ["builtins.BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            o = self.ev(t, st.fork())
            v = o[0][2]
            if v.tag == "cls":
                out.append(v.a[0].qual)
            elif v.tag == "ext":
                out.append(v.a[0])
            elif v.tag == "tup":
                for x in v.a:
                    out.append(x.a[0].qual if x.tag == "cls" else x.a[0])
            else:
                out.append(repr(v))
        return out

    def handle(self, s, hclasses, st, exc):
        res = []
        cur = [st]
        for h, hc in zip(s.handlers, hclasses):
            nxt = []
            for c in cur:
                pend = [c]
                for cl in hc:
                    np = []
                    for p in pend:
                        for b, s3 in self.branch(p, T("isinstance", exc, cl)):
                            if b:
                                s3.note(self.loc(h), f"except {cl.split('.')[-1]} catches {show(exc)}")
                                fr = s3.heap[s3.frame]
                                old = fr.d.get("$exc")
                                fr = fr.put("$exc", exc)
                                if h.name:
                                    fr = fr.put(h.name, exc)
                                s3.heap[s3.frame] = fr
                                for k, s4, v in self.block(h.body, s3):
                                    fr = s4.heap[s4.frame]
                                    if h.name:
                                        fr = fr.rem(h.name)
                                    fr = fr.put("$exc", old) if old is not None else fr.rem("$exc")
                                    s4.heap[s4.frame] = fr
                                    res.append((k, s4, v))
                            else:
                                np.append(s3)
                    pend = np
                nxt.extend(pend)
            cur = nxt
        res.extend(("raise", c, exc) for c in cur)
        return res

    # ---- with -------------------------------------------------------------
    def s_With(self, s, st):
        return self.do_with(s, s.items, s.body, st, isinstance(s, ast.AsyncWith))

    s_AsyncWith = s_With

    def do_with(self, s, items, body, st, is_async):
        if not items:
            return self.block(body, st)
        it = items[0]

        def inner(st, val):
            """run the body with the entered value"""
            cur = [("next", st, None)]
            if it.optional_vars is not None:
                cur = self.assign(it.optional_vars, val, st)
            res = []
            for o in cur:
                if o[0] != "next":
                    res.append(o)
                else:
                    res.extend(self.do_with(s, items[1:], body, o[1], is_async))
            return res

        def f(st, cm):
            return self.with_value(st, cm, s, inner, is_async)
        res = []
        for o in self.ev(it.context_expr, st):
            if o[0] == "ok":
                res.extend(f(o[1], o[2]))
            else:
                res.append(o)
        return res

    def with_value(self, st, cm, node, inner, is_async):
        """inner(st, value) -> statement outcomes; returns statement outcomes"""
        if self.env is not None:
            r = self.env.with_(self, st, cm, node, inner, is_async)
            if r is not None:
                return r
        if cm.tag == "cm":           # generator based context manager: inline the generator
            fn, args, kwargs = cm.a
            me = st.frame

            def handler(st, val):
                outs = []
                for k, s2, v in inner(st, val):
                    if k == "next":
                        outs.append(("ok", s2, NONE))
                    elif k == "raise":
                        outs.append(("raise", s2, v))
                    else:
                        outs.append(("gx2", s2, (k, v)))   # leaves the body normally, generator resumes
                return outs
            return self.run_cm(st, fn, args, dict(kwargs), node, handler)
        if cm.tag == "ref" and st.heap[cm].kind == "inst" and isinstance(st.heap[cm].cls, ClassInfo):
            ci = st.heap[cm].cls
            en = ci.find("__aenter__" if is_async else "__enter__")
            ex = ci.find("__aexit__" if is_async else "__exit__")
            if en and ex:
                def g(st, val):
                    res = []
                    for k, s2, v in inner(st, val):
                        a = [NONE, NONE, NONE] if k != "raise" else [T("typeof", v), v, T("tb")]
                        for o in self.bind(self.call(s2, Bound(cm, Fn(ex[2], None)), a, {}, node), lambda st, r: self.await_(st, r, node) if is_async else [("ok", st, r)]):
                            if o[0] != "ok":
                                res.append(o)
                            elif k == "raise":
                                for b, s3 in self.branch(o[1], o[2]):
                                    res.append(("next", s3, None) if b else ("raise", s3, v))
                            else:
                                res.append((k, o[1], v))
                    return res
                outs = self.call(st, Bound(cm, Fn(en[2], None)), [], {}, node)
                if is_async:
                    outs = self.bind(outs, lambda st, r: self.await_(st, r, node))
                res = []
                for o in outs:
                    if o[0] == "ok":
                        res.extend(g(o[1], o[2]))
                    else:
                        res.append(o)
                return res
        if cm.tag == "stdcm":
            return self.std_cm(st, cm.a[0], cm.a[1], node, inner)
        # unknown context manager: entering yields an opaque value, exit does not suppress
        val = T("enter", cm)
        return inner(st, val)

    def std_cm(self, st, kind, args, node, inner):
        """contextlib.suppress / closing / aclosing / nullcontext"""
        if kind == "null":
            return inner(st, args[0] if args else NONE)
        if kind == "suppress":
            names = [x.a[0].qual if x.tag == "cls" else x.a[0] if x.tag == "ext" else repr(x) for x in args]
            saved = st.handlers
            st.handlers = saved + (frozenset(names),)
            res = []
            for k, s2, v in inner(st, NONE):
                s2.handlers = saved
                if k != "raise":
                    res.append((k, s2, v))
                    continue
                cur = [s2]
                for c in names:
                    nx = []
                    for p in cur:
                        for b, s3 in self.branch(p, T("isinstance", v, c)):
                            if b:
                                res.append(("next", s3, None))
                            else:
                                nx.append(s3)
                    cur = nx
                res.extend(("raise", p, v) for p in cur)
            return res
        res = []
        for k, s2, v in inner(st, args[0]):
            outs = self.bind(self.getattr(s2, args[0], kind, node), lambda st, f: self.call(st, f, [], {}, node))
            if kind == "aclose":
                outs = self.bind(outs, lambda st, r: self.await_(st, r, node))
            for o in outs:
                res.append((k, o[1], v) if o[0] == "ok" else o)
        return res

    def run_cm(self, st, fn, args, kwargs, node, handler):
        outs = self.call_fn(st, fn, list(args), kwargs, node, as_gen=handler)
        res = []
        for k, s2, v in outs:
            if k == "ok":
                # generator finished: body outcome was stored
                pend = s2.mon.pop("$gx2", None)
                if pend is not None:
                    res.append((pend[0], s2, pend[1]))
                else:
                    res.append(("next", s2, None))
            else:
                res.append((k, s2, v))
        return res

    def cm_step(self, st, cm, name, args, node):
        """explicit __enter__/__exit__ of a generator based context manager: the generator is suspended at its yield, which may be nested in if, with and try-finally"""
        key = ("$cm", cm)
        fn, cargs, ckw = cm.a
        while fn.tag == "bound":
            fn, cargs = fn.a[1], (fn.a[0],) + tuple(cargs)
        info, env = fn.a
        caller = (st.frame, st.stack, st.frames, st.handlers)
        res = []
        try:
            if name == "__enter__":
                for k, s2, d in self.bind_args(st, info, env, list(cargs), dict(ckw), node):
                    if k != "ok":
                        res.append((k, s2, d))
                        continue
                    fr = self.alloc(s2, "F" + info.qual + "@" + str(self.nid(node)), Obj("frame", info, d, base=env))
                    s2.frame, s2.frames, s2.stack = fr, caller[2] + (fr,), caller[1] + (self.nid(node),)
                    for kk, s3, v in self.susp_block(info.node.body, s2):
                        s3.frame, s3.stack, s3.frames, s3.handlers = caller
                        if kk == "yield":
                            s3.mon[key] = s3.mon.get(key, ()) + ((fr, v[1]),)
                            res.append(("ok", s3, v[0]))
                        elif kk == "raise":
                            res.append((kk, s3, v))
                        else:
                            res.append(("raise", s3, self.new_inst(s3, node, Ext("builtins.RuntimeError"))))
                return res
            held = st.mon.get(key, ())
            if not held:
                return None
            fr, pos = held[-1]
            if len(held) > 1:
                st.mon[key] = held[:-1]
            else:
                st.mon.pop(key)
            exc = None
            if args and args[0] is not NONE:
                exc = args[1]
            st.frame, st.frames, st.stack = fr, caller[2] + (fr,), caller[1] + (self.nid(node),)
            outs = [("next", st, None)] if exc is None else [("raise", st, exc)]
            for part in pos:
                outs = [o for k, s2, v in outs for o in self.resume(part, k, s2, v, node)]
            for kk, s3, v in outs:
                s3.frame, s3.stack, s3.frames, s3.handlers = caller
                if kk == "raise":
                    res.append(("ok", s3, FALSE) if v is exc else (kk, s3, v))
                else:
                    res.append(("ok", s3, B(exc is not None)))
            return res
        except Unsuspendable:
            return None

    def susp_block(self, stmts, st):
        """statement outcomes, or ("yield", st, (value, position)) where the position says what is left to do, innermost first"""
        res, cur = [], [st]
        for i, s in enumerate(stmts):
            nxt = []
            for st in cur:
                if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                    outs = self.block([s], st)
                elif isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Yield):
                    outs = self.ev(s.value.value, st) if s.value.value is not None else [("ok", st, NONE)]
                    outs = [("yield", o[1], (o[2], ())) if o[0] == "ok" else o for o in outs]
                elif isinstance(s, ast.If):
                    outs = []
                    for o in self.ev(s.test, st):
                        if o[0] != "ok":
                            outs.append(o)
                            continue
                        for b, s2 in self.branch(o[1], o[2]):
                            outs.extend(self.susp_block(s.body if b else s.orelse, s2))
                elif isinstance(s, ast.With) and len(s.items) == 1:
                    it = s.items[0]
                    outs = []
                    for o in self.ev(it.context_expr, st):
                        if o[0] != "ok":
                            outs.append(o)
                            continue
                        cm = o[2]
                        for k, s2, v in self.bind(self.getattr(o[1], cm, "__enter__", s), lambda st, f: self.call(st, f, [], {}, s)):
                            if k != "ok":
                                outs.append((k, s2, v))
                                continue
                            for o2 in (self.assign(it.optional_vars, v, s2) if it.optional_vars is not None else [("next", s2, None)]):
                                if o2[0] != "next":
                                    raise Unsuspendable
                                for k3, s3, v3 in self.susp_block(s.body, o2[1]):
                                    if k3 == "yield":
                                        outs.append((k3, s3, (v3[0], v3[1] + (("with", cm, s),))))
                                    else:
                                        outs.extend(self.resume(("with", cm, s), k3, s3, v3, s))
                elif isinstance(s, ast.Try) and not s.handlers and not s.orelse:
                    outs = []
                    for k3, s3, v3 in self.susp_block(s.body, st):
                        if k3 == "yield":
                            outs.append((k3, s3, (v3[0], v3[1] + (("finally", s),))))
                        else:
                            outs.extend(self.resume(("finally", s), k3, s3, v3, s))
                else:
                    raise Unsuspendable
                for k, s2, v in outs:
                    if k == "yield":
                        res.append((k, s2, (v[0], v[1] + (("rest", tuple(stmts[i + 1:])),))))
                    elif k == "next":
                        nxt.append(s2)
                    else:
                        res.append((k, s2, v))
            cur = nxt
        return res + [("next", x, None) for x in cur]

    def resume(self, part, k, st, v, node):
        """go on with one enclosing construct of a suspended generator"""
        if part[0] == "rest":
            if k != "next":
                return [(k, st, v)]
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in part[1] for x in ast.walk(s)):
                raise Unsuspendable
            return self.block(list(part[1]), st)
        res = []
        if part[0] == "finally":
            for o in self.block(part[1].finalbody, st):
                res.append((k, o[1], v) if o[0] == "next" else o)
            return res
        args = [NONE, NONE, NONE] if k != "raise" else [T("typeof", v), v, T("tb")]
        for o in self.bind(self.getattr(st, part[1], "__exit__", part[2]), lambda st, f: self.call(st, f, args, {}, part[2])):
            if o[0] != "ok":
                res.append(o)
            elif k == "raise":
                for b, s3 in self.branch(o[1], o[2]):
                    res.append(("next", s3, None) if b else ("raise", s3, v))
            else:
                res.append((k, o[1], v))
        return res

    # ---- loops -------------------------------------------------------------
    def s_While(self, s, st):
        lid = ("w", self.nid(s), st.stack[-6:])

        def step(st):
            """-> (backs, exits)"""
            backs, exits = [], []
            for o in self.ev(s.test, st):
                if o[0] != "ok":
                    exits.append(o)
                    continue
                for b, s2 in self.branch(o[1], o[2]):
                    if not b:
                        s2.loops = s2.loops[:-1]
                        for e in self.block(s.orelse, s2):
                            exits.append(e)
                        continue
                    for k, s3, v in self.block(s.body, s2):
                        if k in ("next", "continue"):
                            backs.append(s3)
                        elif k == "break":
                            s3.loops = s3.loops[:-1]
                            exits.append(("next", s3, None))
                        else:
                            s3.loops = s3.loops[:-1]
                            exits.append((k, s3, v))
            return backs, exits
        if self.concrete:
            return self.unroll_while(s, st, lambda st: self.fix(st, lid, step), self.concrete)
        if isinstance(s.test, (ast.Name, ast.Attribute, ast.Compare)):
            return self.unroll_while(s, st, lambda st: self.fix(st, lid, step))
        return self.fix(st, lid, step)

    def unroll_while(self, s, st, fix, n=16):
        """iterations of a while loop over a known collection or counter are run one after the other"""
        if n == 0:
            return fix(st)
        tests = self.ev(s.test, st.fork())
        if len(tests) != 1 or tests[0][0] != "ok":
            return fix(st)
        _, s2, v = tests[0]
        if self.concrete:
            go = self.truth(s2, v)
            if go is None:
                return fix(st)
        elif v.tag == "ref":
            o = s2.heap[v]
            if o.kind not in ("list", "set") or any(x.tag == "rest" for x in o.items):
                return fix(st)
            go = bool(o.items)
        elif isinstance(s.test, ast.Compare) and is_c(v):
            go = bool(cval(v))
        else:
            return fix(st)
        if not go:
            return self.block(s.orelse, s2)
        res = []
        for k, s3, v in self.block(s.body, s2):
            if k in ("next", "continue"):
                res.extend(self.unroll_while(s, s3, fix, n - 1))
            elif k == "break":
                res.append(("next", s3, None))
            else:
                res.append((k, s3, v))
        return self.dedupe(res)

    def fix(self, st, lid, step, src=None, elem=None, finish=None, cap=14):
        """loop fixpoint.  step(state with lid active) -> (back edges, exits).  finish(state)->outcomes is run for
        exhaustion of for-loops at every loop head."""
        heads = [(st, 0)]
        seen = set()
        exits = []
        joins = 0
        while heads:
            if len(heads) > self.join_heads:
                rnd0 = max(r for _, r in heads)
                joins += 1
                heads = [(j, min(r for _, r in heads)) for j in self.join_all([x for x, _ in heads], ("j", lid[1]), lid)]
            h, rnd = heads.pop(0)
            k = self.skey(h)
            if k in seen:
                continue
            seen.add(k)
            if rnd >= cap:
                self.loopcuts.add(self.loc(lid[1]) if not isinstance(lid[1], int) else str(lid[1]))
                continue
            if finish is not None:
                exits.extend(finish(h.fork()))
            head_snapshot = h.fork()
            h.loops = h.loops + (lid,)
            backs, ex = step(h)
            exits.extend(ex)
            for b in backs:
                b.loops = b.loops[:-1]
                if src is not None:
                    self.add_iterf(b, lid, src, elem)
                self.age(b, lid)
                self.widen(head_snapshot, b, lid, rnd)
                if src is not None:
                    # heads that differ only in what completed iterations established: keep the disjunction
                    mk0 = self.skey(b, iterf=False)
                    for x, _ in heads:
                        if self.skey(x, iterf=False) == mk0:
                            for sk, sv in b.iterf.items():
                                x.iterf[sk] = x.iterf.get(sk, frozenset()) | sv
                            break
                    else:
                        heads.append((b, rnd + 1))
                else:
                    heads.append((b, rnd + 1))
        return self.dedupe(exits)

    def join_all(self, states, tag, lid=None):
        """least upper bound of states with the same control context and monitor state"""
        groups = {}
        for x in states:
            k = (x.frame, x.stack, x.handlers, x.loops, x.frames, tuple(sorted(((a, b) for a, b in x.mon.items()), key=lambda kv: str(kv[0]))))
            groups.setdefault(k, []).append(x)
        return [g[0] if len(g) == 1 else self.join(g, tag, lid) for g in groups.values()]

    def join(self, g, tag, lid=None):
        r = g[0].fork()
        marks = self.marks(r) + ((LoopMark(lid, 0),) if lid is not None else ())
        keys = {}
        for x in g:
            for k in x.heap:
                keys[k] = keys.get(k, 0) + 1
        for k in keys:
            objs = [x.heap[k] for x in g if k in x.heap]
            o = objs[0]
            if all(q is o or q.key() == o.key() for q in objs[1:]):
                r.heap[k] = o
                continue
            d = {}
            names = {}
            for q in objs:
                for n in q.d:
                    names[n] = 1
            for n in names:
                vs = [q.d.get(n) for q in objs]
                if all(v is vs[0] for v in vs):
                    d[n] = vs[0]
                else:
                    self.lvvals.setdefault((tag, k, n if isinstance(n, str) else show(n)), set()).update(x for x in vs if x is not None)
                    d[n] = T("lv", tag, k, n if isinstance(n, str) else show(n), marks)
            items = o.items
            if any(q.items != items for q in objs):
                n = 0
                m = min(len(q.items) for q in objs)
                while n < m and all(q.items[n] is items[n] for q in objs):
                    n += 1
                self.lvvals.setdefault((tag, k), set()).update(x for q in objs for x in q.items[n:])
                items = items[:n] + (self.rest(T("acc", tag, k, marks)),)
            r.heap[k] = Obj(o.kind, o.cls, d, items, o.base)
        facts = {}
        for t, f in g[0].facts.items():
            if any(is_t(y) and y.a[0] in ("lv", "acc") and y.a[1] == tag and y.a[-1] == marks for y in subterms(t)):
                continue
            fs = [x.facts.get(t) for x in g]
            if any(y is None for y in fs):
                continue
            if all(y == f for y in fs):
                facts[t] = f
                continue
            eq = f.eq if all(y.eq is f.eq for y in fs) else None
            tr = f.tr if all(y.tr is f.tr for y in fs) else None
            ne, isa, nota = f.ne, f.isa, f.nota
            for y in fs:
                ne = ne & y.ne
                isa = isa & y.isa
                nota = nota & y.nota
            if eq is not None or tr is not None or ne or isa or nota:
                facts[t] = Fact(eq, ne, tr, isa, nota)
        r.facts = facts
        it = {}
        for x in g:
            for k, v in x.iterf.items():
                it[k] = it.get(k, frozenset()) | v
        r.iterf = it
        return r

    def add_iterf(self, st, lid, src, elem):
        """record the facts about the element under which one iteration completed"""
        fs = []
        for t, f in st.facts.items():
            if elem in subterms(t):
                fs.append((rebuild(t, lambda v: T("bv", src) if v is elem else None, {}), f))
        fs = frozenset(fs)
        key = (src, lid)
        st.iterf[key] = st.iterf.get(key, frozenset()) | {fs}

    def close_iterf(self, st, lid, src):
        """the loop ran over every element: each element satisfies one of the recorded alternatives"""
        alts = st.iterf.pop((src, lid), None)
        if alts and all(alts):
            key = ("all", src)
            old = st.iterf.get(key, frozenset())
            if len(old) < 3:
                st.iterf[key] = old | {alts}

    def univ(self, st, src, el):
        """states in which the element el of src satisfies what completed loops established for every element"""
        if self.coarse:
            return [st]
        cur = [st]
        for alts in st.iterf.get(("all", src), ()):
            nx = []
            for s in cur:
                for alt in alts:
                    s2 = s.fork()
                    good = True
                    for t, f in alt:
                        t2 = rebuild(t, lambda v: el if v.tag == "t" and v.a[0] == "bv" and v.a[1] is src else None, {})
                        g = s2.facts.get(t2, NOFACT)
                        if (g.eq is not None and f.eq is not None and g.eq is not f.eq) or (g.tr is not None and f.tr is not None and g.tr != f.tr):
                            good = False
                            break
                        s2.facts[t2] = Fact(f.eq or g.eq, f.ne | g.ne, f.tr if f.tr is not None else g.tr, f.isa | g.isa, f.nota | g.nota)
                    if good:
                        nx.append(s2)
            if len(nx) > 12:
                return [st]
            cur = nx
        return cur

    def age(self, st, lid):
        """rename values of the current iteration to the previous one; drop what is older"""
        cur, prev = LoopMark(lid, 0), LoopMark(lid, 1)

        memo0 = {}

        def age1(v):
            if not isinstance(v, V):
                if isinstance(v, tuple):
                    return tuple(age_el(x) for x in v)
                if isinstance(v, frozenset):
                    return frozenset(age_el(x) for x in v)
                return v
            if not any(m.lid == lid for m in v.lp):
                return v
            if v in memo0:
                return memo0[v]
            if v.tag == "t" and v.a[0] == "old":
                r = v
            elif v.tag == "t" and v.a[0] in ("res", "elem", "lv", "exc", "acc", "hdrin", "hdr") and prev in v.lp and not (v.a[0] in ("hdr", "hdrin")):
                r = T("old", v)
            elif prev in v.lp and v.tag == "ref":
                r = v
            else:
                na = tuple(age_el(x) for x in v.a)
                r = mk(v.tag, na)
            memo0[v] = r
            return r

        def age_el(x):
            if isinstance(x, LoopMark):
                return prev if x is cur else x
            return age1(x)

        self.drop_dead(st, lid)
        if not any(any(m.lid == lid for m in v.lp) for v in self._all_values(st)):
            return
        nh = {}
        for k, o in st.heap.items():
            nk = age1(k)
            no = Obj(o.kind, o.cls, {age1(a) if isinstance(a, V) else a: age1(b) for a, b in o.d.items()}, tuple(age1(x) for x in o.items), age1(o.base) if o.base is not None else None)
            if nk in nh and nk is not k:
                # merging two generations: keep only what agrees
                no = self.merge_obj(nh[nk], no, lid)
            nh[nk] = no
        st.heap = nh
        nf = {}
        for t, fct in st.facts.items():
            if prev in t.lp:
                continue
            nt = age1(t)
            nf[nt] = Fact(age1(fct.eq) if fct.eq is not None else None, frozenset(age1(x) for x in fct.ne), fct.tr, fct.isa, fct.nota)
        st.facts = nf
        st.mon = {k: age1(v) if isinstance(v, (V, tuple, frozenset)) else v for k, v in st.mon.items()}
        self.drop_facts(st, prev)

    def drop_facts(self, st, prev):
        """facts about values of an earlier iteration that nothing refers to any more"""
        dead = [t for t in st.facts if prev in t.lp]
        if not dead:
            return
        live = set()
        seen = self.reach(st)
        work = []
        for k in st.heap:
            if k in seen or k.tag != "ref":
                o = st.heap[k]
                work.append(k)
                work.extend(x for x in o.d.values() if isinstance(x, V))
                work.extend(x for x in o.d if isinstance(x, V))
                work.extend(o.items)
                if o.base is not None:
                    work.append(o.base)
        work.extend(st.mon.values())
        work.extend(self.held)
        done = set()
        while work:
            x = work.pop()
            if isinstance(x, (tuple, frozenset)):
                work.extend(x)
                continue
            if not isinstance(x, V) or x in done or prev not in x.lp:
                continue
            done.add(x)
            live.add(x)
            work.extend(x.a)
        for t in dead:
            for y in subterms(t):
                if y.tag == "t" and prev in y.lp and y.a[0] in ("elem", "res", "exc", "old", "lv", "acc") and y not in live:
                    del st.facts[t]
                    break

    def _all_values(self, st):
        for k, o in st.heap.items():
            yield k
            for a, b in o.d.items():
                if isinstance(a, V):
                    yield a
                if isinstance(b, V):
                    yield b
            for x in o.items:
                yield x
            if o.base is not None:
                yield o.base
        for t in st.facts:
            yield t
        for v in st.mon.values():
            if isinstance(v, V):
                yield v
            elif isinstance(v, (tuple, frozenset)):
                for x in _flat(v):
                    yield x

    def merge_obj(self, a, b, lid):
        if a.key() == b.key():
            return a
        d = {}
        for k in set(a.d) | set(b.d):
            va, vb = a.d.get(k), b.d.get(k)
            if va is vb:
                d[k] = va
            else:
                d[k] = T("old", T("lv", ("m", lid[1]), str(k), LoopMark(lid, 1)))
        items = a.items if a.items == b.items else (self.rest(T("old", T("lv", ("m", lid[1]), "items", LoopMark(lid, 1)))),)
        return Obj(a.kind, a.cls, d, items, a.base)

    def widen(self, head, back, lid, rnd):
        """make the chain of loop-head states finite"""
        if rnd < self.exact:
            return
        marks = self.marks(back) + (LoopMark(lid, 0),)
        tag = ("l", lid[1])
        for k, o in list(back.heap.items()):
            ho = head.heap.get(k)
            if ho is None or ho is o:
                continue
            if o.kind in ("list", "set") and o.items != ho.items:
                if len(o.items) != len(ho.items) or rnd >= 2 or any(
                        is_t(y, "acc") and y.a[1] == tag and y.a[2] is k for x in o.items if x.tag == "rest" for y in subterms(x.a[0])):
                    n = 0
                    while n < len(o.items) and n < len(ho.items) and o.items[n] is ho.items[n] and o.items[n].tag != "rest":
                        n += 1
                    self.lvvals.setdefault((tag, k), set()).update(o.items[n:])
                    back.heap[k] = o.with_items(o.items[:n] + (self.rest(T("acc", tag, k, marks)),))
                    o = back.heap[k]
            if o.kind in ("frame", "inst", "dict"):
                d = None
                for name, v in o.d.items():
                    hv = ho.d.get(name)
                    if hv is v or not isinstance(v, V):
                        continue
                    grow = False
                    if is_c(v):
                        grow = isinstance(cval(v), (int, float)) and not isinstance(cval(v), bool) and hv is not None and rnd >= 4
                        if isinstance(cval(v), (str, bytes)) and rnd >= 3:
                            grow = True
                    elif v.tag in ("t", "tup"):
                        nm = name if isinstance(name, str) else show(name)
                        if hv is not None and hv in subterms(v) and not is_c(hv):
                            grow = True
                        elif any(is_t(y, "lv") and y.a[1] == tag and y.a[2] is k and y.a[3] == nm for y in subterms(v)):
                            grow = True
                        elif hv is not None and v.tag == "t" and v.a[0] in ("sum", "concat"):
                            grow = True
                        elif rnd >= 4 and not any(m.lid == lid for m in v.lp):
                            grow = True
                        elif rnd >= 6:
                            grow = True
                    if grow:
                        if d is None:
                            d = dict(o.d)
                        self.lvvals.setdefault((tag, k, name if isinstance(name, str) else show(name)), set()).update(x for x in (hv, v) if x is not None)
                        d[name] = T("lv", tag, k, name if isinstance(name, str) else show(name), marks)
                if d is not None:
                    back.heap[k] = Obj(o.kind, o.cls, d, o.items, o.base)
    def s_For(self, s, st):
        def f(st, it):
            return self.for_over(st, it, s, lambda st, v: self.for_body(s, st, v), isinstance(s, ast.AsyncFor), s.orelse)
        res = []
        for o in self.ev(s.iter, st):
            if o[0] == "ok":
                res.extend(f(o[1], o[2]))
            else:
                res.append(o)
        return res

    s_AsyncFor = s_For

    def for_body(self, s, st, v):
        res = []
        for o in self.assign(s.target, v, st):
            if o[0] == "next":
                res.extend(self.block(s.body, o[1]))
            else:
                res.append(o)
        return res

    def for_over(self, st, it, node, body, is_async=False, orelse=()):
        """iterate abstractly; body(st, elem) -> statement outcomes"""
        res = []
        for k, s2, segs in self.segments(st, it, node, is_async, lazy=True):
            if k != "ok":
                res.append((k, s2, segs))
                continue
            cur = [s2]
            for seg in segs:
                nxt = []
                for c in cur:
                    for o in self.seg_iter(c, seg, node, body):
                        if o[0] == "next":
                            nxt.append(o[1])
                        elif o[0] == "brk":
                            res.append(("next", o[1], None))
                        else:
                            res.append(o)
                cur = nxt
                if len(cur) > 4:
                    cur = [o[1] for o in self.dedupe([("next", x, NONE) for x in cur])]
            for c in cur:
                if orelse:
                    res.extend(self.block(orelse, c))
                else:
                    res.append(("next", c, None))
        return self.dedupe(res)

    def drain(self, st, nxt, node):
        """all the items of an iterator of the client program"""
        out, cur = [], [(st, [])]
        for _ in range(self.concrete + 1):
            ahead = []
            for c, items in cur:
                for k, s2, v in self.call(c, nxt, [], {}, node):
                    if k == "raise" and self.exc_name(s2, v) == "builtins.StopIteration":
                        out.append(("ok", s2, [("known", x) for x in items]))
                    elif k != "ok":
                        out.append((k, s2, v))
                    else:
                        ahead.append((s2, items + [v]))
            cur = ahead
        return out + [("raise", c, self.new_inst(c, node, Ext("builtins.RuntimeError"))) for c, _ in cur]

    def seg_iter(self, st, seg, node, body):
        kind = seg[0]
        if kind == "known":
            out = []
            for k, s2, v in body(st, seg[1]):
                if k in ("next", "continue"):
                    out.append(("next", s2, None))
                elif k == "break":
                    out.append(("brk", s2, None))
                else:
                    out.append((k, s2, v))
            return out
        if kind == "live":        # a list is read item by item as it is now
            out, cur, i = [], [st], 0
            while cur and i <= 4 * self.concrete:
                ahead = []
                for c in cur:
                    items = c.heap[seg[1]].items
                    if i >= len(items):
                        out.append(("next", c, None))
                    elif items[i].tag == "rest":
                        return self.seg_iter(c, ("rest", items[i].a[0], items[i].a[1]), node, body)
                    else:
                        for k, s2, v in body(c, Tup((C(i), items[i])) if len(seg) > 2 else items[i]):
                            if k in ("next", "continue"):
                                ahead.append(s2)
                            else:
                                out.append(("brk", s2, None) if k == "break" else (k, s2, v))
                if len(ahead) > 4:
                    ahead = [o[1] for o in self.dedupe([("next", x, NONE) for x in ahead])]
                cur, i = ahead, i + 1
            return out + [("raise", c, self.new_inst(c, node, Ext("builtins.RuntimeError"))) for c in cur]     # does not end
        if kind == "iter":
            nxt, is_async = seg[1:3]
            stop = "builtins.StopAsyncIteration" if is_async else "builtins.StopIteration"
            out, cur = [], [st]
            for n in range(self.concrete + 1):
                ahead = []
                for c in cur:
                    outs = self.call(c, nxt, [], {}, node)
                    if is_async:
                        outs = self.bind(outs, lambda st, r: self.await_(st, r, node))
                    for k, s2, v in outs:
                        if k == "raise" and self.exc_name(s2, v) == stop:
                            out.append(("next", s2, None))
                        elif k != "ok":
                            out.append((k, s2, v))
                        else:
                            for k3, s3, v3 in body(s2, Tup((C(n), v)) if len(seg) > 3 else v):
                                if k3 in ("next", "continue"):
                                    ahead.append(s3)
                                else:
                                    out.append(("brk", s3, None) if k3 == "break" else (k3, s3, v3))
                cur = ahead
                if not cur:
                    return out
            return out + [("raise", c, self.new_inst(c, node, Ext("builtins.RuntimeError"))) for c in cur]     # does not end
        if kind == "rest":
            _, src, tmpl = seg
            lid = ("f", self.nid(node), st.stack[-6:])
            el = T("elem", src, LoopMark(lid, 0))
            if tmpl is None:
                val = el
            else:
                val = rebuild(tmpl, lambda v: el if v.tag == "t" and v.a[0] == "bv" and v.a[1] is src else None, {})

            st.iterf.pop((src, lid), None)

            def step(st):
                backs, exits = [], []
                vals = []
                for sx in self.univ(st, src, el):
                    vals.extend(self.expand_tmpl(sx, val))
                if self.env is not None and tmpl is None:
                    r = self.env.element(self, st, src, val, node)
                    if r is not None:
                        vals = r
                for k0, st, v0 in vals:
                    if k0 != "ok":
                        st.loops = st.loops[:-1]
                        exits.append((k0, st, v0))
                        continue
                    for k, s3, v in body(st, v0):
                        if k in ("next", "continue"):
                            self.clear_targets(s3, node)
                            backs.append(s3)
                            continue
                        s3.loops = s3.loops[:-1]
                        if k == "break":
                            exits.append(("brk", s3, None))
                        else:
                            exits.append((k, s3, v))
                return backs, exits

            def finish(st):
                if (src, lid) not in st.iterf and any(t.tag == "t" and t.a[0] == "hdrin" and t.a[1] is src and f.tr for t, f in st.facts.items()):
                    return []        # an empty header list contains no header
                if (src, lid) not in st.iterf and is_t(src, "m") and src.a[1] in ("split", "rsplit") and len(src.a) > 3 and src.a[3] is not NONE:
                    return []        # splitting at a separator yields at least one piece
                if (src, lid) not in st.iterf and getattr(self.env, "note_empty", None) and self.env.note_empty(src):
                    st.mon["empty"] = st.mon.get("empty", ()) + (src,)
                self.close_iterf(st, lid, src)
                outs = [("next", st, None)]
                if self.env is not None:
                    r = self.env.exhausted(self, st, src, node)
                    if r is not None:
                        outs = r
                return outs
            return self.fix(st, lid, step, src=src, elem=el, finish=finish)
        if kind == "gen":
            gv = seg[1]

            def handler(st, val):
                outs = []
                for k, s2, v in body(st, Tup((T("idx", gv), val)) if len(seg) > 2 else val):
                    if k in ("next", "continue"):
                        outs.append(("ok", s2, NONE))
                    else:
                        outs.append(("gx", s2, (k, v)))
                return outs
            outs = self.run_gen(st, gv, node, handler)
            res = []
            for k, s2, v in outs:
                if k == "ok":
                    res.append(("next", s2, None))
                elif k == "gx":
                    kk, vv = v
                    res.append(("brk", s2, None) if kk == "break" else (kk, s2, vv))
                else:
                    res.append((k, s2, v))
            return res
        raise Cut("segment " + kind)

    def clear_targets(self, st, node):
        """loop variables nothing reads after the iteration"""
        t = getattr(node, "target", None)
        gens = getattr(node, "generators", None)
        if gens and len(gens) == 1:
            t = gens[0].target
        if t is None:
            return
        fr = st.heap[st.frame]
        names = self.dead_names.get(node)
        if names is None:
            names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
            info = fr.cls
            if not gens:
                inside = set(ast.walk(node)) - set(x for s in getattr(node, "orelse", ()) for x in ast.walk(s))
                root = getattr(info, "node", None)
                if root is None:
                    names = set()
                else:
                    for n in ast.walk(root):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and n not in inside:
                            names.discard(n.id)
                        if isinstance(n, (ast.Global, ast.Nonlocal)):
                            names -= set(n.names)
            self.dead_names[node] = names
        for n in names:
            if n in fr.d:
                fr = fr.rem(n)
        st.heap[st.frame] = fr

    def expand_tmpl(self, st, val):
        """element template of a filtered / conditional comprehension: add the facts under which it was produced"""
        if val.tag == "tmplif":
            alts = [val.a]
        elif val.tag == "tmplalt":
            alts = val.a
        else:
            return [("ok", st, val)]
        if self.coarse and len(alts) > 1:
            vs = [v for v, _ in alts]
            if all(v.tag == "tup" and len(v.a) == len(vs[0].a) for v in vs):
                return [("ok", st, Tup([y[0] if all(z is y[0] for z in y) else T("oneof", *y) for y in zip(*[v.a for v in vs])]))]
            return [("ok", st, T("oneof", *vs))]
        out = []
        for v, conds in alts:
            s2 = st.fork() if len(alts) > 1 else st
            good = True
            for t, box in conds:
                f, g = box.f, s2.facts.get(t, NOFACT)
                if (g.eq is not None and f.eq is not None and g.eq is not f.eq) or (g.tr is not None and f.tr is not None and g.tr != f.tr):
                    good = False
                    break
                s2.facts[t] = Fact(f.eq or g.eq, f.ne | g.ne, f.tr if f.tr is not None else g.tr, f.isa | g.isa, f.nota | g.nota)
            if good:
                out.append(("ok", s2, v))
        return out

    def run_gen(self, st, gv, node, handler):
        kind, what = gv.a[0], gv.a[1]
        if what == "fn":
            _, _, fn, args, kwargs = gv.a
            return self.call_fn(st, fn, list(args), dict(kwargs), node, as_gen=handler)
        # generator expression: (kind,'ge',node id key, frame)
        _, _, gnode, frame, pre = gv.a
        gnode = gnode[0]
        saved = (st.frame, st.frames)
        def h2(s2, v):
            inner = (s2.frame, s2.frames)
            s2.frame, s2.frames = saved
            outs = handler(s2, v)
            for o in outs:
                o[1].frame, o[1].frames = inner
            return outs
        st.frame = frame
        if frame not in st.frames:
            st.frames = st.frames + (frame,)
        outs = self.comp_loop(st, gnode, 0, lambda st: self.bind(self.ev(gnode.elt, st), h2), pre)
        for o in outs:
            o[1].frame, o[1].frames = saved
        return outs

    def comp_loop(self, st, gnode, i, inner, first_iter=None):
        """run inner(st)->expr outcomes for each comprehension element; returns ok(None)/raise/gx"""
        if i == len(gnode.generators):
            return inner(st)
        g = gnode.generators[i]

        def body(st, v):
            res = []
            for o in self.assign(g.target, v, st):
                if o[0] != "next":
                    res.append(o)
                    continue
                cur = [o[1]]
                for cond in g.ifs:
                    nx = []
                    for c in cur:
                        for oo in self.ev(cond, c):
                            if oo[0] != "ok":
                                res.append(oo)
                                continue
                            for b, s3 in self.branch(oo[1], oo[2]):
                                if b:
                                    nx.append(s3)
                                else:
                                    res.append(("next", s3, None))
                    cur = nx
                for c in cur:
                    for oo in self.comp_loop(c, gnode, i + 1, inner):
                        res.append(("next", oo[1], None) if oo[0] == "ok" else oo)
            return res
        names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        fr = st.heap[st.frame]
        saved = {n: fr.d.get(n) for n in names}
        res = []
        its = [("ok", st, first_iter)] if (i == 0 and first_iter is not None) else self.ev(g.iter, st)
        for o in its:
            if o[0] != "ok":
                res.append(o)
                continue
            for k, s2, v in self.for_over(o[1], o[2], gnode, body, bool(g.is_async)):
                fr = s2.heap[s2.frame]
                for n in names:
                    fr = fr.rem(n) if saved[n] is None else fr.put(n, saved[n])
                s2.heap[s2.frame] = fr
                res.append(("ok", s2, NONE) if k == "next" else (k, s2, v))
        return res

    def segments(self, st, it, node, is_async=False, lazy=False):
        """decompose an iterable: list of ('ok', st, [segments])"""
        if self.env is not None:
            r = self.env.segments(self, st, it, node, is_async)
            if r is not None:
                return r
        tag = it.tag
        if tag == "tup":
            return [("ok", st, [("known", x) for x in it.a])]
        if is_c(it) and isinstance(cval(it), (str, bytes)):
            return [("ok", st, [("known", C(x)) for x in cval(it)])]
        if is_c(it) and isinstance(cval(it), (frozenset, tuple)):
            return [("ok", st, [("known", C(x)) for x in sorted(cval(it), key=repr)])]
        if tag == "gen":
            return [("ok", st, [("gen", it)])]
        if tag == "ref":
            o = st.heap[it]
            if o.kind == "list" and lazy and self.concrete and not is_async and all(x.tag != "rest" for x in o.items):
                return [("ok", st, [("live", it)])]
            if o.kind in ("list", "set"):
                return [("ok", st, [("rest", x.a[0], x.a[1]) if x.tag == "rest" else ("known", x) for x in o.items])]
            if o.kind == "dict":
                segs = [("known", k) for k, v in o.d.items() if v is not ABSENT]
                if o.base is not None:
                    segs.append(("rest", T("keys", o.base), None))
                return [("ok", st, segs)]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                nm = "__aiter__" if is_async else "__iter__"
                if o.cls.kind == "namedtuple":
                    return [("ok", st, [("known", o.d[n]) for n, _ in o.cls.annots])]
                r = o.cls.find(nm)
                if r:
                    outs = []
                    for k, s2, v in self.call(st, Bound(it, Fn(r[2], None)), [], {}, node):
                        if k != "ok":
                            outs.append((k, s2, v))
                        elif v is it:
                            nx = o.cls.find("__anext__" if is_async else "__next__") if self.concrete else None
                            if nx:
                                outs.extend([("ok", s2, [("iter", Bound(it, Fn(nx[2], None)), is_async)])] if lazy else self.drain(s2, Bound(it, Fn(nx[2], None)), node))
                            else:
                                outs.append(("ok", s2, [("rest", T("iterself", it), None)]))
                        else:
                            outs.extend(self.segments(s2, v, node, is_async))
                    return outs
        if tag == "t" and it.a[0] == "reversed":
            outs = []
            for k, s2, segs in self.segments(st, it.a[1], node):
                outs.append((k, s2, list(reversed(segs)) if k == "ok" else segs))
            return outs
        if tag == "t" and it.a[0] == "sorted" and it.a[1].tag == "ref":
            return self.segments(st, it.a[1], node)
        if tag == "t" and it.a[0] == "enumerate":
            outs = []
            for k, s2, segs in self.segments(st, it.a[1], node, lazy=lazy):
                if k != "ok":
                    outs.append((k, s2, segs))
                    continue
                if len(segs) == 1 and segs[0][0] == "live":
                    outs.append(("ok", s2, [("live", segs[0][1], True)]))
                    continue
                ns = []
                i = 0
                unk = False
                for sg in segs:
                    if sg[0] == "known":
                        ns.append(("known", Tup((C(i) if not unk else T("idx", it.a[1]), sg[1]))))
                        i += 1
                    elif sg[0] == "rest":
                        unk = True
                        ns.append(("rest", sg[1], Tup((T("idx", T("bv", sg[1])), sg[2] if sg[2] is not None else T("bv", sg[1])))))
                    elif len(segs) == 1 and sg[0] in ("iter", "gen"):
                        ns.append((*sg, True))
                    else:
                        return [("ok", st, [("rest", it, None)])]
                outs.append(("ok", s2, ns))
            return outs
        if tag == "t" and it.a[0] == "mapf":
            # map(f, xs): handled as generator applying f
            return [("ok", st, [("rest", it, None)])]
        return [("ok", st, [("rest", it, None)])]

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st_set(self, st, t.id, v)
            return [("next", st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = self.unpack(st, v, t)
            res = []
            for o in outs:
                if o[0] != "ok":
                    res.append(o)
                    continue
                cur = [("next", o[1], None)]
                for e, x in zip(t.elts, o[2]):
                    nx = []
                    for c in cur:
                        if c[0] == "next":
                            nx.extend(self.assign(e.value if isinstance(e, ast.Starred) else e, x, c[1]))
                        else:
                            nx.append(c)
                    cur = nx
                res.extend(cur)
            return res
        if isinstance(t, ast.Attribute):
            return self.lift(self.bind(self.ev(t.value, st), lambda st, b: self.setattr(st, b, t.attr, v, t)))
        if isinstance(t, ast.Subscript):
            return self.lift(self.bind(self.ev(t.value, st), lambda st, b: self.bind(
                self.ev(t.slice, st), lambda st, k: self.setitem(st, b, k, v, t))))
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise Cut("assign target " + type(t).__name__)

    def unpack(self, st, v, t):
        n = len(t.elts)
        if v.tag == "gen" and v.a[1] == "ge" or is_t(v, "mapf"):
            outs = []
            for k, s2, lv in self.call(st, Ext("builtins.list"), [v], {}, t):
                if k != "ok":
                    outs.append((k, s2, lv))
                else:
                    outs.extend(self.unpack(s2, lv, t))
            return outs
        star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
        if v.tag == "tup":
            items = list(v.a)
        elif v.tag == "ref" and st.heap[v].kind == "list" and not any(x.tag == "rest" for x in st.heap[v].items):
            items = list(st.heap[v].items)
        elif v.tag == "ref" and st.heap[v].kind == "inst" and isinstance(st.heap[v].cls, ClassInfo) and st.heap[v].cls.kind == "namedtuple":
            items = [st.heap[v].d[nm] for nm, _ in st.heap[v].cls.annots]
        elif v.tag == "ref" and st.heap[v].kind == "inst" and isinstance(st.heap[v].cls, ClassInfo) and st.heap[v].cls.find("__iter__"):
            outs = []
            for k, s2, lv in self.call(st, Ext("builtins.list"), [v], {}, t):
                if k != "ok":
                    outs.append((k, s2, lv))
                else:
                    outs.extend(self.unpack(s2, lv, t))
            return outs
        else:
            items = None
        if items is not None:
            if star is None:
                if len(items) != n:
                    e = self.new_inst(st, t, Ext("builtins.ValueError"))
                    return [("raise", st, e)]
                return [("ok", st, items)]
            after = n - star - 1
            mid = self.new_list(st, t, items[star:len(items) - after])
            return [("ok", st, items[:star] + [mid] + (items[-after:] if after else []))]
        vals = [T("item", v, C(i)) for i in range(n)]
        res = [("ok", st, vals)]
        if self.p_active(st, "builtins.ValueError") and v.tag == "t" and not (v.a[0] in ("elem", "item")):
            s2 = st.fork()
            s2.note(self.loc(t), "unpacking fails")
            f = self.assume(s2, T("unpackable", v, n), False)
            s1 = self.assume(st, T("unpackable", v, n), True)
            res = [("ok", s, vals) for s in s1]
            for s in f:
                res.append(("raise", s, self.new_inst(s, t, Ext("builtins.ValueError"))))
        return res

    def p_active(self, st, cls):
        for hs in st.handlers:
            for h in hs:
                if self.p.issub(cls, h):
                    return True
        return False

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.steps += 1
        if not self.steps & 8191 and time.time() > DEADLINE[0]:
            raise Stop("time budget used up")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Cut(f"unsupported expression {type(e).__name__} at {self.loc(e)}")
        return m(e, st)

    def evs(self, nodes, st):
        """evaluate list of nodes: ok value = python list; Starred gives ('*', V)"""
        outs = [("ok", st, [])]
        for n in nodes:
            nx = []
            for o in outs:
                if o[0] != "ok":
                    nx.append(o)
                    continue
                if isinstance(n, ast.Starred):
                    for oo in self.ev(n.value, o[1]):
                        nx.append(("ok", oo[1], o[2] + [("*", oo[2])]) if oo[0] == "ok" else oo)
                else:
                    for oo in self.ev(n, o[1]):
                        nx.append(("ok", oo[1], o[2] + [oo[2]]) if oo[0] == "ok" else oo)
            outs = nx
        return outs

    def e_Constant(self, e, st):
        return [("ok", st, C(e.value) if e.value is not Ellipsis else mk("ellipsis", ()))]

    def e_Name(self, e, st):
        return [("ok", st, self.lookup(st, e.id, e))]

    def lookup(self, st, name, node):
        fr = st.frame
        while fr is not None:
            o = st.heap.get(fr)
            if o is None:
                break
            if name in o.d:
                return o.d[name]
            if o.cls is not None and name in o.cls.locals and fr is st.frame:
                return T("unbound", name)
            fr = o.base
        m = self.p.node_mod.get(node)
        if m is None:
            m = self.cur_module(st)
        if self.global_keys and m is not None:
            g = st.heap.get(mk("globals", (m.name,)))
            if g is not None and name in g.d:
                return g.d[name]
        v = self.p.lookup_global(m, name) if m is not None else None
        if v is None:
            return T("unbound", name) if m is None or m is not self.p.client else T("sym", name)
        return self.force(st, v)

    def cur_module(self, st):
        c = st.heap[st.frame].cls
        return c.module if c else None

    def force(self, st, v):
        if v.tag == "fn" and v.a[1] is None and v.a[0].cls is None:
            info = v.a[0]
            if any(d in ("contextmanager", "contextlib.contextmanager", "asynccontextmanager", "contextlib.asynccontextmanager") for d in info.deco):
                return mk("cmfn", (v,))
        if v.tag == "gexpr":
            return self.global_expr(st, v)
        return v

    def global_expr(self, st, v):
        """module-level constants: evaluated abstractly once, then placed in the state's heap when mutable"""
        key = mk("gref", v.a)
        if self.env is not None:
            r = self.env.global_value(self, st, v.a[0], v.a[1])
            if r is not None:
                return r
        if key in st.heap:
            return st.heap[key].base
        m = self.p.modules[v.a[0]]
        d = m.defs[v.a[1]]
        s2 = self.start_state()
        s2.heap[s2.frame] = Obj("frame", _FakeFn(m), {})
        s2.stack = (("g", m.name, v.a[1]),)
        try:
            outs = self.ev(d[1], s2)
        except Cut:
            outs = []
        oks = [o for o in outs if o[0] == "ok"]
        if len(oks) != 1:
            val = T("global", f"{m.name}.{v.a[1]}")
        else:
            val = oks[0][2]
            if d[0] == "unpack":
                val = val.a[d[2]] if val.tag == "tup" else T("item", val, C(d[2]))
            for k, o in oks[0][1].heap.items():
                if k not in st.heap and o.kind != "frame":
                    st.heap[k] = o
        st.heap[key] = Obj("gref", None, {}, base=val)
        return val

    def e_Tuple(self, e, st):
        return self.bind(self.evs(e.elts, st), lambda st, vs: self._seq(st, vs, e, "tup"))

    def e_List(self, e, st):
        return self.bind(self.evs(e.elts, st), lambda st, vs: self._seq(st, vs, e, "list"))

    def e_Set(self, e, st):
        return self.bind(self.evs(e.elts, st), lambda st, vs: self._seq(st, vs, e, "set"))

    def _seq(self, st, vs, e, kind):
        items = []
        for v in vs:
            if isinstance(v, tuple):
                items.extend(self.spread(st, v[1]))
            else:
                items.append(v)
        if kind == "tup":
            return [("ok", st, Tup(items))]
        return [("ok", st, self.alloc(st, e, Obj(kind, items=tuple(items))))]

    def spread(self, st, v):
        if v.tag == "tup":
            return list(v.a)
        if v.tag == "ref" and st.heap[v].kind in ("list", "set"):
            return list(st.heap[v].items)
        if v.tag == "ref" and st.heap[v].kind == "inst" and isinstance(st.heap[v].cls, ClassInfo) and st.heap[v].cls.kind == "namedtuple":
            return [st.heap[v].d[n] for n, _ in st.heap[v].cls.annots]
        return [self.rest(v)]

    def e_Dict(self, e, st):
        outs = [("ok", st, ({}, None))]
        for k, vn in zip(e.keys, e.values):
            nx = []
            for o in outs:
                if o[0] != "ok":
                    nx.append(o)
                    continue
                d, base = o[2]
                if k is None:
                    for oo in self.ev(vn, o[1]):
                        if oo[0] != "ok":
                            nx.append(oo)
                            continue
                        v = oo[2]
                        if v.tag == "ref" and oo[1].heap[v].kind == "dict":
                            src = oo[1].heap[v]
                            nd = dict(d)
                            nd.update(src.d)
                            nx.append(("ok", oo[1], (nd, src.base if src.base is not None else base)))
                        else:
                            # unknown mapping overrides: keep only as base; earlier keys become uncertain
                            nb = v if not d else T("merged", v, *[x for kv in d.items() for x in kv])
                            nx.append(("ok", oo[1], ({} if d else {}, nb)))
                else:
                    for oo in self.evs([k, vn], o[1]):
                        if oo[0] != "ok":
                            nx.append(oo)
                            continue
                        nd = dict(d)
                        nd.pop(oo[2][0], None)
                        nd[oo[2][0]] = oo[2][1]
                        nx.append(("ok", oo[1], (nd, base)))
            outs = nx
        return self.bind(outs, lambda st, db: [("ok", st, self.new_dict(st, e, db[0], db[1]))])

    def e_JoinedStr(self, e, st):
        parts = [p.value if isinstance(p, ast.FormattedValue) else p for p in e.values]

        def f(st, vs):
            out = []
            for p, v in zip(e.values, vs):
                if isinstance(p, ast.FormattedValue):
                    spec = ast.unparse(p.format_spec) if p.format_spec is not None else ""
                    how = "r" if p.conversion == 114 else "s" if p.conversion == 115 or not spec else ""
                    out.append((v, how, spec))
                else:
                    out.append(v)
            return self.render(st, out, e)
        return self.bind(self.evs(parts, st), f)

    def render(self, st, parts, node):
        """the text of literal pieces and (value, conversion, format specification) pieces, objects with their own __str__ or __repr__ asked"""
        def go(st, i, out):
            while i < len(parts):
                p = parts[i]
                i += 1
                if not isinstance(p, tuple):
                    out = out + [p]
                    continue
                v, how, spec = p
                m = self.text_method(st, v, how)
                if m is not None:
                    return self.bind(self.call(st, m, [], {}, node), lambda st, t: go(st, i, out + [T("fmt", t, spec) if spec else t]))
                if how in ("r", "s", "") and (v.tag == "tup" or v.tag == "ref" and st.heap[v].kind in ("list", "dict", "set")):
                    from . import lib
                    x = lib.fold_const(self, st, v)      # a container of constants
                    if x is not None and not (isinstance(x[0], (set, frozenset)) and len(x[0]) > 1):
                        out = out + [T("fmt", C(repr(x[0])), spec) if spec else C(repr(x[0]))]
                        continue
                if how == "r":
                    v = C(repr(cval(v))) if is_c(v) else T("repr", v)
                elif how == "s":
                    v = C(str(cval(v))) if is_c(v) else T("str", v)
                out = out + [T("fmt", v, spec) if spec else v]
            return [("ok", st, self.concat(st, out, ""))]
        return go(st, 0, [])

    def text_method(self, st, v, how):
        """the bound __str__ or __repr__ that renders an instance, if its class defines one"""
        if how and v.tag == "ref" and st.heap[v].kind == "inst" and isinstance(st.heap[v].cls, ClassInfo):
            for n in ("__str__", "__repr__") if how == "s" and self.text_of(st, v) is None else ("__str__",) if how == "s" else ("__repr__",):
                r = st.heap[v].cls.find(n)
                if r and r[1] == "fn":
                    return Bound(v, Fn(r[2], None))
        return None

    def concat(self, st, parts, empty):
        flat = []
        for p in parts:
            tx = self.text_of(st, p.a[1] if is_t(p, "str") else p)
            if tx is not None:
                p = tx
            if is_t(p, "concat"):
                flat.extend(p.a[1:])
            elif is_t(p, "str") and len(parts) > 1:
                x = p.a[1]
                if is_t(x, "concat"):
                    flat.extend(x.a[1:])
                elif is_c(x):
                    flat.append(C(str(cval(x))))
                else:
                    flat.append(x)
            else:
                flat.append(p)
        out = []
        for p in flat:
            f = st.facts.get(p)
            if f is not None and f.eq is not None and is_c(f.eq) and isinstance(cval(f.eq), (str, bytes)):
                p = f.eq
            if is_c(p) and isinstance(cval(p), (str, bytes)) and not cval(p):
                continue
            if out and is_c(p) and is_c(out[-1]) and type(cval(p)) is type(cval(out[-1])) and isinstance(cval(p), (str, bytes)):
                out[-1] = C(cval(out[-1]) + cval(p))
            else:
                out.append(p)
        if not out:
            return C(empty)
        if len(out) == 1:
            return out[0]
        return T("concat", *out)

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        outs = []
        cur = [("ok", st, None)]
        n = len(e.values)
        for i, x in enumerate(e.values):
            nx = []
            for o in cur:
                for oo in self.ev(x, o[1]):
                    if oo[0] != "ok":
                        outs.append(oo)
                        continue
                    if i == n - 1:
                        outs.append(oo)
                        continue
                    for b, s3 in self.branch(oo[1], oo[2]):
                        if b == is_and:
                            nx.append(("ok", s3, oo[2]))
                        else:
                            v = oo[2]
                            if is_t(v) and v.a[0] in _BOOLOPS:
                                v = B(b)
                            outs.append(("ok", s3, v))
            cur = nx
        return outs

    def e_UnaryOp(self, e, st):
        def f(st, v):
            if isinstance(e.op, ast.Not):
                r = self.truth(st, v)
                if r is not None:
                    return [("ok", st, B(not r))]
                bs = self.as_bool(st, v) if v.tag == "ref" else None
                if bs is not None:
                    return [("ok", s, B(not b)) for x, t in bs for b, s in self.branch(x, t)]
                return [("ok", st, T("not", v))]
            if isinstance(e.op, ast.USub):
                if is_c(v):
                    return [("ok", st, C(-cval(v)))]
                return [("ok", st, lin(self, st, [(-1, v)]))]
            return [("ok", st, T("unary", type(e.op).__name__, v))]
        return self.bind(self.ev(e.operand, st), f)

    def e_BinOp(self, e, st):
        return self.bind(self.ev(e.left, st), lambda st, a: self.bind(self.ev(e.right, st), lambda st, b: self.binop(st, e.op, a, b, e)))

    def binop(self, st, op, a, b, e):
        a, b = self.known(st, a), self.known(st, b)
        if type(op) in _OPNAMES:
            for x, y, pre in ((a, b, ""), (b, a, "r")):
                if x.tag == "ref" and st.heap[x].kind == "inst" and isinstance(st.heap[x].cls, ClassInfo):
                    r = st.heap[x].cls.find(f"__{pre}{_OPNAMES[type(op)]}__")
                    if r and r[1] == "fn":
                        return self.call(st, Bound(x, Fn(r[2], None)), [y], {}, e)
        if is_c(a) and is_c(b):
            x, y = cval(a), cval(b)
            try:
                if isinstance(op, (ast.BitXor, ast.BitOr, ast.BitAnd)) and isinstance(x, int) and isinstance(y, int):
                    return [("ok", st, C(x ^ y if isinstance(op, ast.BitXor) else x | y if isinstance(op, ast.BitOr) else x & y))]
                if isinstance(op, ast.Add):
                    return [("ok", st, C(x + y))]
                if isinstance(op, ast.Sub):
                    return [("ok", st, C(x - y))]
                if isinstance(op, ast.Mult):
                    if not (isinstance(x, (str, bytes)) or isinstance(y, (str, bytes))) or True:
                        r = x * y
                        if not isinstance(r, (str, bytes)) or len(r) < 10000:
                            return [("ok", st, C(r))]
                if isinstance(op, ast.Mod) and isinstance(x, str):
                    return [("ok", st, C(x % y))]
                if isinstance(op, ast.Mod):
                    return [("ok", st, C(x % y))]
                if isinstance(op, ast.FloorDiv):
                    return [("ok", st, C(x // y))]
                if isinstance(op, ast.BitOr):
                    return [("ok", st, C(x | y))]
                if isinstance(op, ast.BitAnd):
                    return [("ok", st, C(x & y))]
                if isinstance(op, ast.Div):
                    return [("ok", st, C(x / y))]
                if isinstance(op, ast.Pow):
                    return [("ok", st, C(x ** y))]
            except ZeroDivisionError:
                return [("raise", st, self.new_inst(st, e, Ext("builtins.ZeroDivisionError")))]
            except Exception:
                pass
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            r = self.const_setop(st, op, a, b, e)
            if r is not None:
                return [("ok", st, r)]
            if isinstance(op, (ast.BitAnd, ast.Sub)) and self.setlike(st, a) and self.setlike(st, b):
                from .lib import set_filter
                r = set_filter(self, st, a, b, e, isinstance(op, ast.BitAnd)) or (set_filter(self, st, b, a, e, True) if isinstance(op, ast.BitAnd) else None)
                if r is not None:
                    return r
        if isinstance(op, ast.Mod) and is_c(a) and isinstance(cval(a), str):
            r = percent(self, st, cval(a), b)
            if r is not None:
                return self.render(st, r, e)
        if isinstance(op, ast.Add):
            for x, y, sw in ((a, b, False), (b, a, True)):
                ty = self.type_of(st, x)
                if ty in ("builtins.str", "builtins.bytes"):
                    return [("ok", st, self.concat(st, [a, b], "" if ty.endswith("str") else b""))]
            if a.tag == "ref" and st.heap[a].kind == "list":
                return [("ok", st, self.new_list(st, e, list(st.heap[a].items) + self.spread(st, b)))]
            if b.tag == "ref" and st.heap[b].kind == "list":
                return [("ok", st, self.new_list(st, e, self.spread(st, a) + list(st.heap[b].items)))]
            if a.tag == "tup" and b.tag == "tup":
                return [("ok", st, Tup(a.a + b.a))]
            if self.numeric(st, a) or self.numeric(st, b):
                return [("ok", st, lin(self, st, [(1, a), (1, b)]))]
            return [("ok", st, T("add", a, b))]
        if isinstance(op, ast.Sub):
            if a.tag == "ref" or b.tag == "ref":
                return [("ok", st, T("setdiff", a, b))]
            return [("ok", st, lin(self, st, [(1, a), (-1, b)]))]
        if isinstance(op, ast.Mult) and (is_c(a) and isinstance(cval(a), int) or is_c(b) and isinstance(cval(b), int)):
            c, x = (cval(a), b) if is_c(a) and isinstance(cval(a), int) else (cval(b), a)
            if self.type_of(st, x) not in ("builtins.str", "builtins.bytes", "builtins.list"):
                return [("ok", st, lin(self, st, [(c, x)]))]
        if isinstance(op, ast.BitOr) and a.tag == "ref" and st.heap[a].kind == "dict":
            return self.bind(self.call(st, Bm(a, "copy"), [], {}, e), lambda st, n: self.bind(self.call(st, Bm(n, "update"), [b], {}, e), lambda st, _: [("ok", st, n)]))
        if isinstance(op, (ast.BitOr,)) and a.tag == "ref" and st.heap[a].kind == "set":
            return [("ok", st, self.alloc(st, e, Obj("set", items=st.heap[a].items + tuple(x for x in self.spread(st, b) if x not in st.heap[a].items))))]
        return [("ok", st, T("bin", type(op).__name__, a, b))]

    def setlike(self, st, v):
        # a keys() or items() view of a known dict is an object of kind "list"
        return is_c(v) and isinstance(cval(v), (set, frozenset)) or v.tag == "ref" and v in st.heap and st.heap[v].kind in ("set", "list")

    def const_setop(self, st, op, a, b, e):
        from .lib import const_items

        if not (self.setlike(st, a) and self.setlike(st, b)):
            return None
        x, y = const_items(st, a), const_items(st, b)
        if x is None or y is None:
            return None
        if isinstance(op, ast.BitOr):
            r = x + [v for v in y if v not in x]
        elif isinstance(op, ast.BitAnd):
            r = [v for v in x if v in y]
        elif isinstance(op, ast.BitXor):
            r = [v for v in x if v not in y] + [v for v in y if v not in x]
        else:
            r = [v for v in x if v not in y]
        return self.alloc(st, e, Obj("set", items=tuple(r)))

    def numeric(self, st, v):
        if is_c(v):
            return isinstance(cval(v), (int, float))
        return v.tag == "t" and (v.a[0] in ("sum", "len", "min", "max") or (v.a[0] == "call" and v.a[1] in ("builtins.int", "builtins.float", "builtins.round"))
                                 or any(k in ("builtins.int", "builtins.float") for k in self.fact(st, v).isa))

    def known(self, st, v):
        """replace a term by the constant it is known to equal"""
        if v.tag == "t":
            f = st.facts.get(v)
            if f is not None and f.eq is not None:
                return f.eq
        return v

    def e_Compare(self, e, st):
        def go(st, left, i):
            if i == len(e.ops):
                return [("ok", st, TRUE)]
            def f(st, right):
                def g(st, r):
                    if i == len(e.ops) - 1:
                        return [("ok", st, r)]
                    out = []
                    for b, s3 in self.branch(st, r):
                        if b:
                            out.extend(go(s3, right, i + 1))
                        else:
                            out.append(("ok", s3, FALSE))
                    return out
                return self.bind(self.compare(st, e.ops[i], left, right, e), g)
            return self.bind(self.ev(e.comparators[i], st), f)
        return self.bind(self.ev(e.left, st), lambda st, l: go(st, l, 0))

    def eq_items(self, st, a, b, neg, e):
        """== of two known sequences with elements that define __eq__: element by element"""
        def items(v):
            if v.tag == "tup":
                return "tup", list(v.a)
            if v.tag == "ref" and st.heap[v].kind == "list" and all(x.tag != "rest" for x in st.heap[v].items):
                return "list", list(st.heap[v].items)
            return None, ()
        def own(v):
            return v.tag == "ref" and v in st.heap and st.heap[v].kind == "inst" and isinstance(st.heap[v].cls, ClassInfo) and st.heap[v].cls.find("__eq__")
        if not self.concrete or a is b:
            return None
        (ka, xs), (kb, ys) = items(a), items(b)
        if ka is None or ka != kb or not any(own(x) for x in xs + ys):
            return None
        if len(xs) != len(ys):
            return [("ok", st, B(neg))]
        done, cur = [], [st]
        for x, y in zip(xs, ys):
            nxt = []
            for c in cur:
                if x is y:
                    nxt.append(c)
                    continue
                for k, s2, v in self.compare(c, ast.Eq(), x, y, e):
                    if k != "ok":
                        done.append((k, s2, v))
                        continue
                    for r, s3 in self.branch(s2, v):
                        if r:
                            nxt.append(s3)
                        else:
                            done.append(("ok", s3, B(neg)))
            cur = nxt
        return done + [("ok", c, B(not neg)) for c in cur]

    def compare(self, st, op, a, b, e):
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))

        def wrap(t):
            r = self.truth(st, t)
            if r is not None:
                return B(r != neg)
            return T("not", t) if neg else t
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            if isinstance(op, (ast.Eq, ast.NotEq)) and a.tag == "ref" and st.heap[a].kind == "inst" and isinstance(st.heap[a].cls, ClassInfo):
                r = st.heap[a].cls.find("__eq__")
                if r is None and a is not b:
                    m = self.p.mixin(st.heap[a].cls, "__eq__")
                    r = m and (None, "fn", m)
                if r and r[1] == "fn" and b is not NONE:
                    outs = self.call(st, Bound(a, Fn(r[2], None)), [b], {}, e)
                    if neg:
                        return self.bind(outs, lambda st, v: [("ok", st, B(not self.truth(st, v)) if self.truth(st, v) is not None else T("not", v))])
                    return outs
            if isinstance(op, (ast.Eq, ast.NotEq)):
                r = self.eq_items(st, a, b, neg, e)
                if r is not None:
                    return r
            if a.tag == "ref" and b.tag == "ref" and a is not b:
                if isinstance(op, (ast.Is, ast.IsNot)):
                    return [("ok", st, B(neg))]
                t = self.eq_containers(st, a, b)
                if t is not None:
                    return [("ok", st, wrap(t))]
            t = self.eqterm(st, a, b)
            return [("ok", st, wrap(t))]
        if isinstance(op, (ast.In, ast.NotIn)):
            return self.bind(self.contains(st, a, b, e), lambda st, t: [("ok", st, (B(self.truth(st, t) != neg) if self.truth(st, t) is not None else (T("not", t) if neg else t)))])
        # ordering
        a, b = self.known(st, a), self.known(st, b)
        if a.tag == "tup" and b.tag == "tup":
            from .lib import deep_const
            x, y = deep_const(self, st, a), deep_const(self, st, b)
            if x is not None and y is not None:
                try:
                    return [("ok", st, B({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]))]
                except TypeError:
                    pass
        if isinstance(op, (ast.LtE, ast.GtE)) and (self.setlike(st, a) or self.setlike(st, b)):
            from .lib import subset
            r = subset(self, st, a, b, e) if isinstance(op, ast.LtE) else subset(self, st, b, a, e)
            if r is not None:
                return r
        if is_c(a) and is_c(b):
            try:
                x, y = cval(a), cval(b)
                r = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
                return [("ok", st, B(r))]
            except Exception:
                pass
        if isinstance(op, (ast.Gt, ast.LtE)):
            x, y = b, a      # a > b  == b < a ; a <= b == not (b < a)
        else:
            x, y = a, b      # a < b ; a >= b == not (a < b)
        # len(x) > 0 / 0 < len(x)
        t = None
        if is_c(x) and cval(x) == 0 and is_t(y, "len"):
            t = y.a[1]
            t = T("nonempty1", t) if t.tag != "t" and t.tag != "ref" else t
        elif is_t(x, "len") and is_c(y) and cval(y) == 1:
            t = T("not", x.a[1])
        if t is None:
            if x.tag == "tup" and y.tag == "tup" or not (self.orderable_lin(st, x) and self.orderable_lin(st, y)):
                t = T("lt", x, y)
            else:
                d = lin(self, st, [(1, y), (-1, x)])
                if is_c(d):
                    t = B(cval(d) > 0)
                else:
                    t = T("pos", d)
        if isinstance(op, (ast.LtE, ast.GtE)):
            r = self.truth(st, t)
            return [("ok", st, B(not r) if r is not None else T("not", t))]
        r = self.truth(st, t)
        return [("ok", st, B(r) if r is not None else t)]

    def orderable_lin(self, st, v):
        return v.tag == "t" or (is_c(v) and isinstance(cval(v), (int, float)))

    def eqterm(self, st, a, b):
        a2, b2 = self.known(st, a), self.known(st, b)
        for x, y in ((a2, b2), (b2, a2)):
            if is_t(x, "len") and is_c(y) and cval(y) == 0 and (x.a[1].tag in ("t", "ref")):
                return T("not", x.a[1])
        if self.is_booly(a2) and b2 in (TRUE, FALSE):
            return a2 if b2 is TRUE else T("not", a2)
        if self.is_booly(b2) and a2 in (TRUE, FALSE):
            return b2 if a2 is TRUE else T("not", b2)
        return eqt(a2, b2)

    def eq_containers(self, st, a, b):
        """a == b of two lists or two dicts whose elements are all known, as a term; None if they are not"""
        oa, ob = st.heap[a], st.heap[b]
        if oa.kind == ob.kind == "list":
            if any(x.tag == "rest" for x in oa.items + ob.items):
                return None
            if len(oa.items) != len(ob.items):
                return FALSE
            ps = list(zip(oa.items, ob.items))
        elif oa.kind == ob.kind == "dict" and oa.base is None and ob.base is None:
            da, db = ({k: v for k, v in o.d.items() if v is not ABSENT} for o in (oa, ob))
            if not all(is_c(k) for k in (*da, *db)):
                return None
            if set(da) != set(db):
                return FALSE
            ps = [(da[k], db[k]) for k in da]
        elif {oa.kind, ob.kind} == {"list", "dict"}:
            return FALSE
        else:
            return None
        ts = []
        for x, y in ps:
            t = self.eq_containers(st, x, y) if x.tag == "ref" and y.tag == "ref" and x is not y else None
            t = self.eqterm(st, x, y) if t is None else t
            r = self.truth(st, t)
            if r is False:
                return FALSE
            if r is None:
                ts.append(t)
        return TRUE if not ts else ts[0] if len(ts) == 1 else T("and", *ts)

    def is_booly(self, v):
        return v.tag == "t" and v.a[0] in _BOOLOPS

    def contains(self, st, a, b, e):
        """a in b  -> boolean term"""
        if self.env is not None:
            r = self.env.contains(self, st, a, b, e)
            if r is not None:
                return r
        a = self.known(st, a)
        b = self.known(st, b)
        if is_c(b):
            bv = cval(b)
            if is_c(a):
                try:
                    return [("ok", st, B(cval(a) in bv))]
                except Exception:
                    pass
            if isinstance(bv, (frozenset, tuple)):
                return [("ok", st, mkor([eqt(a, C(x)) for x in sorted(bv, key=repr)]))]
            return [("ok", st, T("in", a, b))]
        r = strs.has(self, st, a, b)
        if r is not None:
            return [("ok", st, B(r))]
        if b.tag == "tup":
            return [("ok", st, mkor([self.eqterm(st, a, x) for x in b.a]))]
        if b.tag == "ref":
            o = st.heap[b]
            if o.kind in ("list", "set"):
                ts = []
                for x in o.items:
                    if x.tag == "rest":
                        if x.a[1] is None:
                            ts.append(T("in", a, x.a[0]))
                        else:
                            ts.append(T("exists", x.a[0], eqt(a, x.a[1])))
                    else:
                        ts.append(self.eqterm(st, a, x))
                return [("ok", st, mkor(ts))]
            if o.kind == "dict":
                if a in o.d:
                    return [("ok", st, B(o.d[a] is not ABSENT))]
                ts = []
                if not is_c(a):
                    ts = [self.eqterm(st, a, k) for k, v in o.d.items() if v is not ABSENT]
                if o.base is not None:
                    ts.append(T("in", a, o.base))
                return [("ok", st, mkor(ts))]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                r = o.cls.find("__contains__")
                if r:
                    return self.call(st, Bound(b, Fn(r[2], None)), [a], {}, e)
                m = self.p.mixin(o.cls, "__contains__")
                if m is not None and (o.cls.find("__getitem__") or o.cls.find("__iter__")):
                    return self.call(st, Bound(b, Fn(m, None)), [a], {}, e)
        if is_t(b, "m") and b.a[1] == "keys":
            return self.contains(st, a, b.a[2], e)
        return [("ok", st, T("in", a, b))]

    def e_IfExp(self, e, st):
        res = []
        for o in self.ev(e.test, st):
            if o[0] != "ok":
                res.append(o)
                continue
            brs = self.branch(o[1], o[2])
            for b, s2 in brs:
                if len(brs) > 1:
                    s2.note(self.loc(e), f"{_src(e.test)} -> {b}")
                res.extend(self.ev(e.body if b else e.orelse, s2))
        return res

    def e_NamedExpr(self, e, st):
        return self.bind(self.ev(e.value, st), lambda st, v: [("ok", o[1], v) if o[0] == "next" else o for o in self.assign(e.target, v, st)])

    def e_Lambda(self, e, st):
        info = self.p.fn_by_node.get(e)
        if info is None:
            encl = st.heap[st.frame].cls
            info = FnInfo(e, self.p.node_mod[e], (encl.qual if encl else "") + ".<lambda>", None)
            self.p.fn_by_node[e] = info
        return self.closure(st, info, e)

    def closure(self, st, info, node):
        """the function object of a nested definition; the values of its defaults are those of now"""
        dvs = [d for d in node.args.defaults + node.args.kw_defaults if d is not None and not isinstance(d, ast.Constant)]
        outs = [("ok", st, {})]
        for d in dvs:
            outs = self.bind(outs, lambda s, got, d=d: self.bind(self.ev(d, s), lambda s2, v: [("ok", s2, {**got, f"$default{self.nid(d)}": v})]))
        res = []
        for k, s, got in outs:
            if k == "ok":
                env = self.alloc(s, node, Obj("frame", _FakeFn(info.module), got, base=s.frame)) if got else s.frame
                res.append(("ok", s, Fn(info, env)))
            else:
                res.append((k, s, got))
        return res

    def e_Await(self, e, st):
        return self.bind(self.ev(e.value, st), lambda st, v: self.await_(st, v, e))

    def await_(self, st, v, node):
        if v.tag == "coro":
            fn, args, kwargs = v.a
            return self.call_fn(st, fn, list(args), dict(kwargs), node, awaiting=True)
        if v.tag == "anext":
            from .lib import first_of
            return first_of(self, st, v.a[0], node, None, True)
        if self.env is not None:
            r = self.env.await_(self, st, v, node)
            if r is not None:
                return r
        if v.tag == "ref" and st.heap[v].kind == "inst" and isinstance(st.heap[v].cls, ClassInfo):
            r = st.heap[v].cls.find("__await__")
            if r:
                return self.bind(self.call(st, Bound(v, Fn(r[2], None)), [], {}, node), lambda st, x: self.await_(st, x, node))
        if is_t(v, "awaiting"):
            return self.await_(st, v.a[1], node)
        if is_t(v, "res") or is_t(v, "call"):
            return [("ok", st, v)]
        return [("ok", st, T("await", v))]

    def e_Yield(self, e, st):
        def f(st, v):
            h = self.yieldh.get(st.frame)
            if h is None:
                return [("ok", st, NONE)]
            return h(st, v)
        if e.value is None:
            return f(st, NONE)
        return self.bind(self.ev(e.value, st), f)

    def e_YieldFrom(self, e, st):
        def f(st, v):
            h = self.yieldh.get(st.frame)
            def body(st, x):
                return [("next", o[1], None) if o[0] == "ok" else o for o in h(st, x)]
            return [("ok", o[1], NONE) if o[0] == "next" else o for o in self.for_over(st, v, e, body)]
        return self.bind(self.ev(e.value, st), f)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Slice(self, e, st):
        ns = [e.lower, e.upper, e.step]
        outs = [("ok", st, [])]
        for n in ns:
            nx = []
            for o in outs:
                if o[0] != "ok":
                    nx.append(o)
                elif n is None:
                    nx.append(("ok", o[1], o[2] + [NONE]))
                else:
                    for oo in self.ev(n, o[1]):
                        nx.append(("ok", oo[1], o[2] + [oo[2]]) if oo[0] == "ok" else oo)
            outs = nx
        return self.bind(outs, lambda st, vs: [("ok", st, mk("slice", tuple(vs)))])

    def e_Subscript(self, e, st):
        return self.bind(self.ev(e.value, st), lambda st, b: self.bind(self.ev(e.slice, st), lambda st, k: self.getitem(st, b, k, e)))

    def getitem(self, st, b, k, e):
        if self.env is not None:
            r = self.env.getitem(self, st, b, k, e)
            if r is not None:
                return r
        k = self.known(st, k)
        if b.tag == "ext" or b.tag == "cls":
            return [("ok", st, b)]     # generic alias
        if is_c(b) or b.tag == "tup":
            seq = cval(b) if is_c(b) else b.a
            if k.tag == "slice" and all(is_c(x) for x in k.a):
                r = seq[slice(*[cval(x) for x in k.a])]
                return [("ok", st, C(r) if is_c(b) else Tup(r))]
            if is_c(k) and not (is_c(b) and not isinstance(seq, (str, bytes, tuple))):
                try:
                    r = seq[cval(k)]
                    return [("ok", st, C(r) if is_c(b) else r)]
                except Exception:
                    return [("raise", st, self.new_inst(st, e, Ext("builtins.IndexError")))]
            return [("ok", st, self.slice_t(b, k))]
        if b.tag == "ref":
            o = st.heap[b]
            if o.kind == "dict":
                return self.dict_get(st, b, k, e)
            if o.kind == "list":
                if k.tag == "slice":
                    if all(is_c(x) for x in k.a) and not any(x.tag == "rest" for x in o.items):
                        return [("ok", st, self.new_list(st, e, o.items[slice(*[cval(x) for x in k.a])]))]
                    if all(x is NONE for x in k.a):
                        return [("ok", st, self.new_list(st, e, o.items))]
                    return [("ok", st, T("slice", T("listval", *o.items), *k.a))]
                if is_c(k):
                    i = cval(k)
                    items = o.items
                    if isinstance(i, int):
                        if i >= 0 and not any(x.tag == "rest" for x in items[: i + 1]) and i < len(items):
                            return [("ok", st, items[i])]
                        if i < 0 and not any(x.tag == "rest" for x in items[i:]) and -i <= len(items):
                            return [("ok", st, items[i])]
                        if not any(x.tag == "rest" for x in items):
                            return [("raise", st, self.new_inst(st, e, Ext("builtins.IndexError")))]
                        if len(items) == 1 and items[0].a[1] is None:
                            return [("ok", st, T("item", items[0].a[0], k))]
                        if len(items) == 1:
                            src, tm = items[0].a
                            el = T("item", src, k) if tm.tag not in ("tmplif", "tmplalt") else T("pick", src, k, self.nid(e))
                            val = rebuild(tm, lambda v: el if v.tag == "t" and v.a[0] == "bv" and v.a[1] is src else None, {})
                            return [o for sx in self.univ(st, src, el) for o in self.expand_tmpl(sx, val)]
                return [("ok", st, T("item", T("listval", *o.items), k))]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                if o.cls.kind == "namedtuple" and is_c(k):
                    return [("ok", st, o.d[o.cls.annots[cval(k)][0]])]
                r = o.cls.find("__getitem__")
                if r:
                    return self.call(st, Bound(b, Fn(r[2], None)), [k], {}, e)
        v = strs.item(self, st, b, k)
        if v is not None:
            return [("ok", st, v)]
        if k.tag == "slice":
            return [("ok", st, self.slice_t(b, k))]
        # unknown container
        if is_t(b, "cmatch") or is_t(b, "m") and b.a[1] in ("match", "fullmatch", "search"):
            return self.call_tm(st, b, "group", [k], {}, e)
        t = T("item", b, k)
        ov = st.heap.get(mk("attrs", (b,)))
        if ov is not None and k in ov.d:
            return [("ok", st, ov.d[k])]
        res = []
        if b.tag == "t" and is_c(k) and isinstance(cval(k), (str, bytes)) and self.p_active(st, "builtins.KeyError"):
            for bb, s2 in self.branch(st, T("in", k, b)):
                if bb:
                    res.append(("ok", s2, t))
                else:
                    s2.note(self.loc(e), f"key {k} missing")
                    res.append(("raise", s2, self.new_inst(s2, e, Ext("builtins.KeyError"))))
            return res
        return [("ok", st, t)]

    def slice_t(self, b, k):
        if k.tag == "slice":
            return T("slice", b, *k.a)
        return T("item", b, k)

    def dict_get(self, st, b, k, e, default=None, raising=True):
        """d[k] or d.get(k, default)"""
        o = st.heap[b]
        if k in o.d and o.d[k] is not ABSENT:
            return [("ok", st, o.d[k])]
        if k not in o.d and not is_c(k) and k.tag == "t":
            hits = [(kk, vv) for kk, vv in o.d.items() if vv is not ABSENT]
            if hits and (o.base is None):
                # symbolic key into a known table: case split
                out = []
                cur = [st]
                for kk, vv in hits:
                    nx = []
                    for s in cur:
                        for bb, s2 in self.branch(s, self.eqterm(s, k, kk)):
                            if bb:
                                out.append(("ok", s2, vv))
                            else:
                                nx.append(s2)
                    cur = nx
                for s in cur:
                    if default is not None:
                        out.append(("ok", s, default))
                    else:
                        out.append(("raise", s, self.new_inst(s, e, Ext("builtins.KeyError"))))
                return out
        if (k in o.d and o.d[k] is ABSENT) or o.base is None:
            if default is not None:
                return [("ok", st, default)]
            return [("raise", st, self.new_inst(st, e, Ext("builtins.KeyError")))]
        t = T("item", o.base, k)
        has = T("in", k, o.base)
        if default is not None:
            res = []
            for bb, s2 in self.branch(st, has):
                res.append(("ok", s2, t if bb else default))
            return res
        r = self.truth(st, has)
        if r is False:
            return [("raise", st, self.new_inst(st, e, Ext("builtins.KeyError")))]
        if r is None and self.p_active(st, "builtins.KeyError"):
            res = []
            for bb, s2 in self.branch(st, has):
                if bb:
                    res.append(("ok", s2, t))
                else:
                    s2.note(self.loc(e), f"key {k} missing")
                    res.append(("raise", s2, self.new_inst(s2, e, Ext("builtins.KeyError"))))
            return res
        for s in self.assume(st, has, True):
            return [("ok", s, t)]
        return []

    def setitem(self, st, b, k, v, e):
        if self.env is not None:
            r = self.env.setitem(self, st, b, k, v, e)
            if r is not None:
                return r
        k = self.known(st, k)
        if b.tag == "ref":
            o = st.heap[b]
            if o.kind == "dict":
                st.heap[b] = o.put(k, v)
                return [("ok", st, NONE)]
            if o.kind == "list":
                if is_c(k) and isinstance(cval(k), int) and not any(x.tag == "rest" for x in o.items) and -len(o.items) <= cval(k) < len(o.items):
                    it = list(o.items)
                    it[cval(k)] = v
                    st.heap[b] = o.with_items(it)
                elif k.tag == "slice" and all(is_c(x) for x in k.a) and (k.a[2] is NONE or k.a[2] is C(1)) and self.plain_items(st, v) is not None and (
                        k.a[0] is NONE and k.a[1] is NONE or not any(x.tag == "rest" for x in o.items)):
                    it = list(o.items)
                    it[slice(cval(k.a[0]), cval(k.a[1]))] = self.plain_items(st, v)
                    st.heap[b] = o.with_items(it)
                elif is_c(k) and isinstance(cval(k), int) and not any(x.tag == "rest" for x in o.items):
                    return [("raise", st, self.new_inst(st, e, Ext("builtins.IndexError")))]
                else:
                    st.heap[b] = o.with_items((self.rest(T("mutated", T("listval", *o.items), k, v)),))
                return [("ok", st, NONE)]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                r = o.cls.find("__setitem__")
                if r:
                    return self.call(st, Bound(b, Fn(r[2], None)), [k, v], {}, e)
        ak = mk("attrs", (b,))
        o = st.heap.get(ak) or Obj("attrs")
        st.heap[ak] = o.put(k, v)
        return [("ok", st, NONE)]

    def plain_items(self, st, v):
        """the elements of a list or tuple value (unknown segments of a list included), None for anything else"""
        if v.tag == "tup":
            return list(v.a)
        if v.tag == "ref" and st.heap[v].kind == "list":
            return list(st.heap[v].items)
        return None

    def delitem(self, st, b, k, e):
        if self.env is not None:
            r = self.env.delitem(self, st, b, k, e)
            if r is not None:
                return r
        if b.tag == "ref":
            o = st.heap[b]
            if o.kind == "dict":
                res = []
                for kk, s2, _ in self.dict_get(st, b, k, e):
                    if kk == "ok":
                        s2.heap[b] = s2.heap[b].put(k, ABSENT)
                        res.append(("ok", s2, NONE))
                    else:
                        res.append((kk, s2, _))
                return res
            if o.kind == "list" and is_c(k) and isinstance(cval(k), int) and not any(x.tag == "rest" for x in o.items):
                it = list(o.items)
                if not -len(it) <= cval(k) < len(it):
                    return [("raise", st, self.new_inst(st, e, Ext("builtins.IndexError")))]
                del it[cval(k)]
                st.heap[b] = o.with_items(it)
                return [("ok", st, NONE)]
            if o.kind == "list" and k.tag == "slice" and all(is_c(x) for x in k.a) and (k.a[0] is NONE and k.a[1] is NONE and k.a[2] is NONE or not any(x.tag == "rest" for x in o.items)):
                it = list(o.items)
                del it[slice(*[cval(x) for x in k.a])]
                st.heap[b] = o.with_items(it)
                return [("ok", st, NONE)]
            if o.kind == "list":
                st.heap[b] = o.with_items((self.rest(T("mutated", T("listval", *o.items), k)),))
                return [("ok", st, NONE)]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                r = o.cls.find("__delitem__")
                if r:
                    return self.call(st, Bound(b, Fn(r[2], None)), [k], {}, e)
        ak = mk("attrs", (b,))
        o = st.heap.get(ak) or Obj("attrs")
        st.heap[ak] = o.put(k, ABSENT)
        return [("ok", st, NONE)]

    # comprehensions -------------------------------------------------------
    def e_ListComp(self, e, st, kind="list"):
        return self.comp(e, st, kind)

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        # the first iterable is evaluated immediately
        def f(st, it):
            return [("ok", st, mk("gen", ("sync" if not e.generators[0].is_async else "async", "ge", (_Box(e),), st.frame, it)))]
        return self.bind(self.ev(e.generators[0].iter, st), f)

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind, first=None):
        """comprehension: exact over known elements, one symbolic template over unknown segments"""
        g = e.generators[0]
        its = [("ok", st, first)] if first is not None else self.ev(g.iter, st)
        res = []
        for o in its:
            if o[0] != "ok":
                res.append(o)
                continue
            for k, s2, segs in self.segments(o[1], o[2], e, bool(g.is_async)):
                if k != "ok":
                    res.append((k, s2, segs))
                    continue
                if all(s[0] == "known" for s in segs) and len(segs) <= 40:
                    res.extend(self.comp_exact(e, s2, kind, segs))
                elif all(s[0] in ("known", "rest") for s in segs) and len(e.generators) == 1:
                    res.extend(self.comp_tmpl(e, s2, kind, segs))
                else:
                    res.extend(self.comp_generic(e, s2, kind, o[2]))
        return res

    def _bindnames(self, e, st):
        names = [n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        fr = st.heap[st.frame]
        return {n: fr.d.get(n) for n in names}

    def _restore(self, st, saved):
        fr = st.heap[st.frame]
        for n, v in saved.items():
            fr = fr.rem(n) if v is None else fr.put(n, v)
        st.heap[st.frame] = fr

    def comp_one(self, e, st, kind, v):
        """evaluate target binding, conditions and element for one value; ok value = element or None if filtered"""
        g = e.generators[0]
        res = []
        for o in self.assign(g.target, v, st):
            if o[0] != "next":
                res.append(o)
                continue
            cur = [o[1]]
            for cond in g.ifs:
                nx = []
                for c in cur:
                    for oo in self.ev(cond, c):
                        if oo[0] != "ok":
                            res.append(oo)
                            continue
                        for b, s3 in self.branch(oo[1], oo[2]):
                            if b:
                                nx.append(s3)
                            else:
                                res.append(("ok", s3, None))
                cur = nx
            for c in cur:
                if kind == "dict":
                    for oo in self.evs([e.key, e.value], c):
                        res.append(("ok", oo[1], Tup(oo[2])) if oo[0] == "ok" else oo)
                else:
                    res.extend(self.ev(e.elt, c))
        return res

    def comp_exact(self, e, st, kind, segs):
        if len(e.generators) > 1:
            return self.comp_generic(e, st, kind, None, segs)
        saved = self._bindnames(e, st)
        outs = [("ok", st, [])]
        for sg in segs:
            nx = []
            for o in outs:
                if o[0] != "ok":
                    nx.append(o)
                    continue
                for oo in self.comp_one(e, o[1], kind, sg[1]):
                    if oo[0] != "ok":
                        nx.append(oo)
                    else:
                        nx.append(("ok", oo[1], o[2] + ([oo[2]] if oo[2] is not None else [])))
            outs = nx
        return self.bind(outs, lambda st, vs: self.comp_result(e, st, kind, vs, saved))

    def comp_result(self, e, st, kind, vs, saved, base=None):
        self._restore(st, saved)
        if kind == "dict":
            d = {}
            for v in vs:
                if v.tag == "tup":
                    d[v.a[0]] = v.a[1]
                else:
                    base = v
            return [("ok", st, self.new_dict(st, e, d, base))]
        return [("ok", st, self.alloc(st, e, Obj(kind, items=tuple(vs))))]

    def comp_tmpl(self, e, st, kind, segs):
        saved = self._bindnames(e, st)
        outs = [("ok", st, [])]
        for sg in segs:
            nx = []
            for o in outs:
                if o[0] != "ok":
                    nx.append(o)
                    continue
                if sg[0] == "known":
                    for oo in self.comp_one(e, o[1], kind, sg[1]):
                        nx.append(("ok", oo[1], o[2] + ([oo[2]] if oo[2] is not None else [])) if oo[0] == "ok" else oo)
                    continue
                src, tmpl = sg[1], sg[2]
                bv = T("bv", src)
                v = bv if tmpl is None else tmpl
                s0 = o[1].fork()
                hs = s0.handlers
                rr = self.comp_one(e, s0, kind, v)
                bad = [x for x in rr if x[0] != "ok"]
                good = [x for x in rr if x[0] == "ok"]
                for x in bad:
                    nx.append(x)
                vals = []
                for x in good:
                    newf = [(t, f) for t, f in x[1].facts.items() if t not in o[1].facts and bv in subterms(t)]
                    vals.append((x[2], tuple(sorted(newf, key=lambda tf: tf[0].n))))
                s1 = o[1]
                conds = any(fs for _, fs in vals)
                kept = [(v, fs) for v, fs in vals if v is not None]
                if not kept:
                    nx.append(("ok", s1, o[2]))
                    continue
                if len(kept) == 1 and len(vals) == 1:
                    t2 = kept[0][0]
                elif len(kept) == 1:
                    t2 = mk("tmplif", (kept[0][0], tuple((t, _FactBox(f)) for t, f in kept[0][1])))
                else:
                    t2 = mk("tmplalt", tuple((v, tuple((t, _FactBox(f)) for t, f in fs)) for v, fs in kept))
                if kind == "dict":
                    nx.append(("ok", s1, o[2] + [T("dictof", src, t2)]))
                else:
                    nx.append(("ok", s1, o[2] + [self.rest(src, t2) if t2 is not bv else self.rest(src, None)]))
            outs = nx
        return self.bind(outs, lambda st, vs: self.comp_result(e, st, kind, vs, saved))

    def comp_generic(self, e, st, kind, it, segs=None):
        saved = self._bindnames(e, st)
        acc = self.alloc(st, e, Obj("list" if kind != "set" else "set"))
        if kind == "dict":
            st.heap[acc] = Obj("dict")
        g = e.generators[0]
        fr = st.heap[st.frame]
        st.heap[st.frame] = fr.put("$acc%d" % self.nid(e), acc)

        def inner(st):
            if kind == "dict":
                return self.bind(self.evs([e.key, e.value], st), lambda st, kv: self.setitem(st, acc, kv[0], kv[1], e))
            return self.bind(self.ev(e.elt, st), lambda st, v: self.call(st, Bm(acc, "append" if kind == "list" else "add"), [v], {}, e))
        if it is None:
            it = Tup([s[1] for s in segs])
        outs = self.comp_loop(st, e, 0, inner, it)
        res = []
        for k, s2, v in outs:
            self._restore(s2, saved)
            s2.heap[s2.frame] = s2.heap[s2.frame].rem("$acc%d" % self.nid(e))
            res.append((k, s2, acc if k == "ok" else v))
        return res

    # ------------------------------------------------------------------ attributes
    def e_Attribute(self, e, st):
        return self.bind(self.ev(e.value, st), lambda st, b: self.getattr(st, b, e.attr, e))

    def getattr(self, st, b, name, e, default=None):
        if self.env is not None:
            r = self.env.getattr(self, st, b, name, e)
            if r is not None:
                return r
        tag = b.tag
        if tag == "gexpr":
            b = self.force(st, b)
            tag = b.tag
        if is_c(b) and isinstance(cval(b), (type(None), bool, int, str, bytes)) and not hasattr(cval(b), name):
            st.note(self.loc(e), f"{show(b)} has no attribute {name}")
            return [("ok", st, default)] if default is not None else [("raise", st, self.new_inst(st, e, Ext("builtins.AttributeError")))]
        if name == "with_traceback" and (tag == "cls" and not b.a[0].find(name) or is_t(b, "exc") or tag == "ref" and st.heap[b].kind == "inst" and self.p.issub(self.exc_name(st, b), "builtins.BaseException")):
            return [("ok", st, Bm(b, name))]
        if tag in ("ext", "cls") and name == "mro":
            m = mro_values([b] if tag == "ext" else b.a[0].mro())
            if len(m) > 1:
                return [("ok", st, mk("const_fn", (Tup(m),)))]
        if tag == "ext" and name == "__mro__":
            m = mro_values([b])
            if len(m) > 1:
                return [("ok", st, Tup(m))]
        if tag == "ext" and name in ("__name__", "__qualname__") and b.a[0].startswith("builtins."):
            return [("ok", st, C(b.a[0][9:]))]
        if is_t(b, "httpstatus") and name in ("phrase", "value", "name", "description"):
            import http
            return [("ok", st, C(getattr(http.HTTPStatus(cval(b.a[1])), name)))]
        if tag in ("mod", "ext"):
            v = self.p.static_attr(b, name)
            if v is None:
                v = Ext(f"{b.a[0]}.{name}")
            return [("ok", st, self.force(st, v))]
        if tag == "ref":
            o = st.heap.get(b)
            if o is None:
                return [("ok", st, T("attr", b, name))]
            if o.kind == "inst":
                return self.inst_attr(st, b, o, name, e, default)
            return [("ok", st, Bm(b, name))]
        if tag == "cls":
            ci = b.a[0]
            if name == "__name__":
                return [("ok", st, C(ci.name))]
            if name == "__mro__":
                return [("ok", st, Tup(mro_values(ci.mro())))]
            if self.cls_attrs:
                v = self.cls_attr(st, ci, name)
                if v is not None:
                    return [("ok", st, v)]
            r = ci.find(name)
            if r:
                return self.class_member(st, ci, r, name, b)
            return [("ok", st, T("attr", b, name))]
        if tag == "enum":
            if name == "name":
                return [("ok", st, C(b.a[1]))]
            if name == "value":
                return self.ev(b.a[0].attrs[b.a[1]], st)
        if tag == "part":
            if name == "func":
                return [("ok", st, b.a[0])]
            if name == "args":
                return [("ok", st, Tup(b.a[1]))]
        if tag == "fn":
            if name == "__name__":
                return [("ok", st, C(b.a[0].name))]
            if name == "__doc__":
                return [("ok", st, docstring(b.a[0]))]
        if tag == "bound" and name == "__name__" and b.a[1].tag == "fn":
            return [("ok", st, C(b.a[1].a[0].name))]
        if tag == "bound" and name == "__doc__" and b.a[1].tag == "fn":
            return [("ok", st, docstring(b.a[1].a[0]))]
        if tag == "super":
            slf, ci = b.a
            return self.super_attr(st, slf, ci, name, e)
        if name == "__await__" and tag in ("coro", "envaw"):
            return [("ok", st, mk("const_fn", (T("awaiting", b),)))]
        if is_c(b) or tag in ("tup", "gen", "cm", "bm", "dictview"):
            return [("ok", st, Bm(b, name))]
        # term
        ov = st.heap.get(mk("attrs", (b,)))
        if ov is not None and name in ov.d:
            return [("ok", st, ov.d[name])]
        if tag == "t":
            kc = self.known(st, b)
            if kc is not b:
                return self.getattr(st, kc, name, e)
            if name == "scheme" and is_t(b, "call") and b.a[1] == "urllib.parse.urlsplit" and len(b.a) > 2:
                sch = self.url_scheme(st, b.a[2])
                if sch is not None:
                    return [("ok", st, sch)]
        return [("ok", st, T("attr", b, name))]

    def url_scheme(self, st, u):
        """the scheme of a URL text that starts with a constant `scheme://`"""
        if is_t(u, "concat") and len(u.a) > 1:
            u = u.a[1]
        if is_c(u) and isinstance(cval(u), str) and "://" in cval(u):
            sch = cval(u).split("://", 1)[0]
            if sch.isalpha() and sch.isascii():
                return C(sch.lower())
        return None

    def class_member(self, st, ci, r, name, b):
        owner, kind, x = r
        if kind == "attr":
            if owner.kind == "enum":
                return [("ok", st, mk("enum", (owner, name)))]
            return self.class_attr(st, owner, name, x)
        if kind == "static" or kind == "fn":
            return [("ok", st, Fn(x, None))]
        if kind == "class":
            return [("ok", st, Bound(b, Fn(x, None)))]
        return [("ok", st, T("attr", b, name))]

    def class_attr(self, st, owner, name, node):
        if (owner.qual, name) in self.class_attr_sym:
            return [("ok", st, self.class_attr_sym[(owner.qual, name)])]
        key = mk("gref", (owner.qual, name))
        if key in st.heap:
            return [("ok", st, st.heap[key].base)]
        saved = (st.frame, st.stack)
        s2 = self.start_state()
        s2.heap[s2.frame] = Obj("frame", _FakeFn(owner.module), {})
        s2.stack = (("g", owner.qual, name),)
        outs = [o for o in self.ev(node, s2) if o[0] == "ok"]
        val = outs[0][2] if len(outs) == 1 else T("global", f"{owner.qual}.{name}")
        if len(outs) == 1:
            for k, o in outs[0][1].heap.items():
                if k not in st.heap and o.kind != "frame":
                    st.heap[k] = o
        st.heap[key] = Obj("gref", None, {}, base=val)
        return [("ok", st, val)]

    def inst_attr(self, st, b, o, name, e, default=None):
        if name in o.d and o.d[name] is not ABSENT:
            return [("ok", st, o.d[name])]
        ci = o.cls
        if name == "__class__" and isinstance(ci, V) and ci.tag == "ext" and o.kind == "inst":
            return [("ok", st, ci)]
        if isinstance(ci, ClassInfo):
            if name == "__class__":
                return [("ok", st, Cls(ci))]
            if name == "__dict__":
                return [("ok", st, mk("instdict", (b,)))]
            if self.cls_attrs:
                v = self.cls_attr(st, ci, name)
                if v is not None:
                    return [("ok", st, Bound(b, v) if v.tag == "fn" else v)]
            r = ci.find(name)
            if r:
                owner, kind, x = r
                if kind == "property":
                    return self.call(st, Bound(b, Fn(x, None)), [], {}, e)
                if kind == "fn":
                    if any(d in ("contextmanager", "contextlib.contextmanager", "asynccontextmanager", "contextlib.asynccontextmanager") for d in x.deco):
                        return [("ok", st, mk("cmfn", (Bound(b, Fn(x, None)),)))]
                    return [("ok", st, Bound(b, Fn(x, None)))]
                if kind == "static":
                    return [("ok", st, Fn(x, None))]
                if kind == "class":
                    return [("ok", st, Bound(Cls(ci), Fn(x, None)))]
                return self.class_attr(st, owner, name, x) if owner.kind != "enum" else [("ok", st, mk("enum", (owner, name)))]
            exts = [c.a[0] for c in ci.mro() if not isinstance(c, ClassInfo)]
            real = [x for x in exts if x not in _HARMLESS_BASES]
            g = ci.find("__getattr__")
            if g:
                return self.call(st, Bound(b, Fn(g[2], None)), [C(name)], {}, e)
            m = self.p.mixin(ci, name)
            if m is not None:
                return [("ok", st, Bound(b, Fn(m, None)))]
            if ci.kind == "namedtuple":
                if name == "_fields":
                    return [("ok", st, Tup([C(n) for n, _ in ci.annots]))]
                if name in ("_replace", "_asdict"):
                    return [("ok", st, Bm(b, name))]
            for x in exts:
                if x.startswith("typing.") and name in _MAPPING_MIXIN:
                    return [("ok", st, Bm(b, name))]
            if real:
                return [("ok", st, Bm(b, name) if name in _MAPPING_MIXIN else T("attr", b, name))]
            if o.base is not None:      # open instance: undeclared attributes are symbolic
                return [("ok", st, T("attr", b, name))]
            if default is not None:
                return [("ok", st, default)]
            s = st
            s.note(self.loc(e), f"attribute {name} missing on {ci.name}")
            return [("raise", s, self.new_inst(s, e, Ext("builtins.AttributeError")))]
        return [("ok", st, T("attr", b, name))]

    def super_attr(self, st, slf, ci, name, e):
        o = st.heap.get(slf) if slf.tag == "ref" else None
        cls = o.cls if o is not None else (slf.a[0] if slf.tag == "cls" else ci)
        mro = cls.mro() if isinstance(cls, ClassInfo) else ci.mro()
        try:
            i = mro.index(ci) + 1
        except ValueError:
            i = 0
        for c in mro[i:]:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    k, f = c.methods[name]
                    if k == "property":
                        return self.call(st, Bound(slf, Fn(f, None)), [], {}, e)
                    if k == "static":
                        return [("ok", st, Fn(f, None))]
                    return [("ok", st, Bound(slf, Fn(f, None)))]
                if name in c.attrs:
                    return self.class_attr(st, c, name, c.attrs[name])
        exts = [c.a[0] for c in mro[i:] if not isinstance(c, ClassInfo)]
        return [("ok", st, mk("extm", (slf, tuple(exts), name)))]

    def setattr(self, st, b, name, v, e):
        if self.env is not None:
            r = self.env.setattr(self, st, b, name, v, e)
            if r is not None:
                return r
        if b.tag == "ref":
            o = st.heap[b]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                for c in o.cls.mro():
                    if isinstance(c, ClassInfo) and name + ".setter" in c.methods:
                        return self.call(st, Bound(b, Fn(c.methods[name + ".setter"][1], None)), [v], {}, e)
                r = o.cls.find("__setattr__")
                if r:
                    return self.call(st, Bound(b, Fn(r[2], None)), [C(name), v], {}, e)
            st.heap[b] = o.put(name, v)
            return [("ok", st, NONE)]
        ak = mk("attrs", (b,))
        o = st.heap.get(ak) or Obj("attrs")
        st.heap[ak] = o.put(name, v)
        if b.tag == "cls":
            self.cls_attrs = True
        return [("ok", st, NONE)]

    def delattr(self, st, b, name, e):
        if b.tag == "ref":
            o = st.heap[b]
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                r = o.cls.find("__delattr__")
                if r and r[1] == "fn":
                    return self.call(st, Bound(b, Fn(r[2], None)), [C(name)], {}, e)
                if o.base is None and o.d.get(name, ABSENT) is ABSENT and all(isinstance(c, ClassInfo) or c.a[0] == "builtins.object" for c in o.cls.mro()):
                    return [("raise", st, self.new_inst(st, e, Ext("builtins.AttributeError")))]
            st.heap[b] = o.rem(name)
        else:
            ak = mk("attrs", (b,))
            if ak in st.heap:
                st.heap[ak] = st.heap[ak].rem(name)
        return [("ok", st, NONE)]

    def cls_attr(self, st, ci, name):
        """the value a class attribute was assigned at run time, None if it has the one of the class body"""
        for c in ci.mro():
            if not isinstance(c, ClassInfo):
                continue
            o = st.heap.get(mk("attrs", (Cls(c),)))
            if o is not None and name in o.d:
                return o.d[name]
            if name in c.attrs or name in c.methods:
                return None
        return None

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            info = st.heap[st.frame].cls
            fr = st.frame
            while info is not None and info.cls is None and st.heap[fr].base is not None:
                fr = st.heap[fr].base
                info = st.heap[fr].cls
            if info is not None and info.cls is not None:
                a = info.node.args
                first = (a.posonlyargs + a.args)[0].arg
                slf = st.heap[fr].d.get(first)
                return [("ok", st, mk("super", (slf, info.cls)))]

        def f(st, fv):
            def g(st, args):
                knodes = [k.value for k in e.keywords]
                def h(st, kvs):
                    kwargs = {}
                    star = None
                    for k, v in zip(e.keywords, kvs):
                        if k.arg is None:
                            if v.tag == "ref" and st.heap[v].kind == "dict":
                                for kk, vv in st.heap[v].d.items():
                                    if vv is not ABSENT and is_c(kk):
                                        kwargs[cval(kk)] = vv
                                if st.heap[v].base is not None:
                                    kwargs["**"] = st.heap[v].base
                            else:
                                kwargs["**"] = v
                        else:
                            kwargs[k.arg] = v
                    pos = []
                    for a in args:
                        if isinstance(a, tuple):
                            pos.extend(self.spread(st, a[1]))
                        else:
                            pos.append(a)
                    return self.call(st, fv, pos, kwargs, e)
                return self.bind(self.evs(knodes, st), h)
            return self.bind(self.evs(e.args, st), g)
        return self.bind(self.ev(e.func, st), f)

    def call(self, st, fv, args, kwargs, node):
        self.sites.add(self.nid(node))
        if self.env is not None:
            r = self.env.call(self, st, fv, args, kwargs, node)
            if r is not None:
                return r
        tag = fv.tag
        if tag == "fn":
            info = fv.a[0]
            m = self.models.get(info.qual)
            if m is not None:
                r = m(self, st, args, kwargs, node)
                if r is not None:
                    return r
            if info.is_gen:
                return [("ok", st, mk("gen", ("async" if info.is_async else "sync", "fn", fv, tuple(args), tuple(sorted(kwargs.items())))))]
            if info.is_async:
                return [("ok", st, mk("coro", (fv, tuple(args), tuple(sorted(kwargs.items())))))]
            return self.call_fn(st, fv, args, kwargs, node)
        if tag == "const_fn":
            return [("ok", st, fv.a[0])]
        if tag == "bound":
            slf, fn = fv.a
            return self.call(st, fn, [slf] + list(args), kwargs, node)
        if tag == "cmfn":
            fn = fv.a[0]
            if fn.tag == "bound":
                args = [fn.a[0]] + list(args)
                fn = fn.a[1]
            return [("ok", st, mk("cm", (fn, tuple(args), tuple(sorted(kwargs.items())))))]
        if tag == "cls":
            return self.instantiate(st, fv.a[0], args, kwargs, node)
        if tag == "part":
            f, a, k = fv.a
            kw = dict(k)
            kw.update(kwargs)
            return self.call(st, f, list(a) + list(args), kw, node)
        if tag == "ext":
            return self.call_ext(st, fv.a[0], args, kwargs, node)
        if tag == "bm":
            return self.call_bm(st, fv.a[0], fv.a[1], args, kwargs, node)
        if tag == "extm":
            return self.call_extm(st, fv, args, kwargs, node)
        if tag == "ref" and st.heap[fv].kind == "inst" and isinstance(st.heap[fv].cls, ClassInfo):
            r = st.heap[fv].cls.find("__call__")
            if r:
                return self.call(st, Bound(fv, Fn(r[2], None)), args, kwargs, node)
        if tag == "t" and fv.a[0] == "attr":
            return self.call_tm(st, fv.a[1], fv.a[2], args, kwargs, node)
        return self.unknown_call(st, fv, args, kwargs, node)

    def call_tm(self, st, recv, name, args, kwargs, node):
        """method call on an opaque term"""
        r = rex.method(self, st, recv, name, args, kwargs, node)
        if r is not None:
            return r
        if name in STR_PARTLY:
            v = strs.method(self, st, recv, name, args, kwargs)
            if v is not None:
                return [("ok", st, v)]
        h = self.tm_models.get(name)
        if h is not None:
            r = h(self, st, recv, args, kwargs, node)
            if r is not None:
                return r
        if name in PURE_M and (not kwargs or name == "_replace"):
            t = self.pure_m(st, recv, name, list(args) + [x for k, v in sorted(kwargs.items()) for x in (C(k), v)])
            res = []
            if name == "encode" and is_t(recv, "joined") and all(is_c(x) and str(cval(x)).isascii() for x in recv.a[1:]):
                return [("ok", st, t)]
            if name in ("decode", "encode", "index") or (name == "split" and False):
                res = self.raises(st, ("builtins.UnicodeDecodeError",) if name == "decode" else ("builtins.UnicodeEncodeError",), node, t)
            return [("ok", st, t)] + res
        return self.unknown_call(st, T("attr", recv, name), args, kwargs, node)

    def pure_m(self, st, recv, name, args):
        if name in ("startswith", "endswith") and len(args) == 1 and args[0].tag == "tup":
            return mkor([self.pure_m(st, recv, name, [x]) for x in args[0].a])
        if name in ("startswith", "endswith") and len(args) == 1 and is_c(args[0]):
            if args[0] in (C(""), C(b"")):
                return TRUE
            r = self.known(st, recv)
            if is_c(r) and type(cval(r)) is type(cval(args[0])):
                return B(getattr(cval(r), name)(cval(args[0])))
        if name == "decode" and is_t(recv, "m") and recv.a[1] == "encode":
            enc = cval(args[0]) if args and is_c(args[0]) else "utf-8"
            if recv.a[3] is C(ENC.get(str(enc).lower(), enc)):
                return recv.a[2]
        if name in ("encode", "decode"):
            enc = cval(args[0]) if args and is_c(args[0]) else ("utf-8" if not args else None)
            if enc is not None:
                enc = ENC.get(str(enc).lower(), enc)
                rest = tuple(args[1:])
                return T("m", name, recv, C(enc), *rest)
        return T("m", name, recv, *args)

    def raises(self, st, classes, node, subject=None):
        """exception outcomes for a call that can raise the given classes, only those some active handler catches"""
        out = []
        for c in classes:
            if self.p_active(st, c):
                s2 = st.fork()
                s2.note(self.loc(node), f"raises {c.split('.')[-1]}")
                if subject is not None:
                    ss = self.assume(s2, T("raises", subject, c), True)
                else:
                    ss = [s2]
                for s in ss:
                    out.append(("raise", s, self.new_inst(s, node, Ext(c))))
                if subject is not None:
                    self.assume(st, T("raises", subject, c), False)
        return out

    def unknown_call(self, st, fv, args, kwargs, node):
        name = show(fv)
        kw = tuple(x for k, v in sorted(kwargs.items()) for x in (C(k), v))
        if is_t(fv, "attr") and fv.a[1].tag != "ref":
            kw = kw + (T("recv", fv.a[1]),)
        t = self.fresh(st, name, tuple(args) + kw, node)
        res = [("ok", st, t)]
        act = set()
        for hs in st.handlers:
            act |= hs
        for c in sorted(act):
            s2 = st.fork()
            s2.note(self.loc(node), f"{name}(...) raises {c.split('.')[-1]}")
            res.append(("raise", s2, T("exc", c, (self.nid(node), s2.stack[-12:]), self.marks(s2))))
        return res

    def call_ext(self, st, q, args, kwargs, node):
        m = self.ext_models.get(q)
        if m is not None:
            r = m(self, st, args, kwargs, node)
            if r is not None:
                return r
        parts = q.split(".")
        if len(parts) == 3 and parts[0] == "builtins" and parts[1] in ("str", "bytes", "list", "dict", "set", "tuple", "frozenset") and parts[2] not in ("maketrans", "fromkeys", "fromhex") and not parts[2].startswith("_") and args:
            v = self.known(st, args[0])      # the method of the type, called on an object of exactly this type
            if is_c(v) and type(cval(v)).__name__ == parts[1] or v.tag == "ref" and st.heap[v].kind == parts[1] or v.tag == "tup" and parts[1] == "tuple":
                return self.bind(self.getattr(st, v, parts[2], node), lambda st, f: self.call(st, f, list(args[1:]), kwargs, node))
        if q.startswith("re."):
            r = rex.const_ext(self, st, q, args, kwargs, node)
            if r is not None:
                return r
        from . import lib
        if q in lib.FOLD_EXT:
            r = lib.fold_ext(self, st, q, args, kwargs, node)
            if r is not None:
                return r
        import builtins
        bn = q[9:] if q.startswith("builtins.") else None
        isexc = (bn and isinstance(getattr(builtins, bn, None), type) and issubclass(getattr(builtins, bn), BaseException)) or q in EXT_BASES
        if isexc:
            return [("ok", st, self.new_inst(st, node, Ext(q), {"args": Tup(args)}))]
        if q in ("builtins.float", "math.isnan", "math.isinf", "math.isfinite", "math.floor", "math.ceil", "math.trunc") and len(args) == 1 and not kwargs and is_c(self.known(st, args[0])):
            try:
                return [("ok", st, C((float if q == "builtins.float" else getattr(math, q[5:]))(cval(self.known(st, args[0])))))]
            except (ValueError, TypeError, OverflowError) as x:
                return [("raise", st, self.new_inst(st, node, Ext("builtins." + type(x).__name__)))]
        kw = tuple(x for k, v in sorted(kwargs.items()) for x in (C(k), v))
        if q == "urllib.parse.SplitResult" and not args and is_t(kwargs.get("**", NONE), "m") and kwargs["**"].a[1] == "_asdict":
            return [("ok", st, self.pure_m(st, kwargs["**"].a[2], "_replace", [x for k, v in sorted(kwargs.items()) if k != "**" for x in (C(k), v)]))]
        if q in PURE_EXT:
            t = T("call", q, *args, *kw)
            res = [("ok", st, t)]
            if q in _RAISES:
                res += self.raises(st, _RAISES[q], node, t)
            elif q not in NO_RAISE:
                res += self.ext_raises(st, q, node)
            return res
        t = self.fresh(st, q, tuple(args) + kw, node)
        res = [("ok", st, t)]
        if q not in NO_RAISE:
            res += self.ext_raises(st, q, node)
        return res

    def ext_raises(self, st, q, node):
        act = set()
        for hs in st.handlers:
            act |= hs
        out = []
        if q in _RAISES:
            return self.raises(st, _RAISES[q], node)
        for c in sorted(act):
            if c.startswith("starlette.") or c.startswith("local."):
                continue
            if c in ("builtins.KeyError", "builtins.AttributeError", "builtins.IndexError", "builtins.ImportError", "builtins.ModuleNotFoundError"):
                continue
            s2 = st.fork()
            s2.note(self.loc(node), f"{q}(...) raises {c.split('.')[-1]}")
            out.append(("raise", s2, T("exc", c, (self.nid(node), s2.stack[-12:]), self.marks(s2))))
        return out

    def call_extm(self, st, fv, args, kwargs, node):
        slf, exts, name = fv.a
        if name == "__init__":
            if slf.tag == "ref" and any(x in ("builtins.dict", "typing.Dict") for x in exts):
                pass
            if slf.tag == "ref" and args:
                o = st.heap[slf]
                if "args" not in o.d:
                    st.heap[slf] = o.put("args", Tup(args))
            return [("ok", st, NONE)]
        if name == "__setattr__" and slf.tag == "ref" and len(args) == 2 and is_c(args[0]):
            st.heap[slf] = st.heap[slf].put(cval(args[0]), args[1])
            return [("ok", st, NONE)]
        if name == "__new__" and args:
            return self.new_base(st, args, node) or [("ok", st, T("new", *args))]
        return self.unknown_call(st, T("attr", T("super", slf), name), args, kwargs, node)

    def instantiate(self, st, ci, args, kwargs, node):
        m = self.models.get(ci.qual)
        if m is not None:
            r = m(self, st, args, kwargs, node)
            if r is not None:
                return r
        if ci.kind == "enum":
            return [("ok", st, T("enumof", Cls(ci), *args))]
        nw = ci.find("__new__")
        if nw is not None and nw[1] in ("fn", "static"):
            return self.bind(self.call(st, Fn(nw[2], None), [Cls(ci)] + list(args), kwargs, node), lambda st, o: self.init_new(st, ci, o, args, kwargs, node))
        if "typing.TypedDict" in ci.mro_names() and not args:
            return [("ok", st, self.new_dict(st, node, {C(k): v for k, v in kwargs.items()}))]
        slf = self.new_inst(st, node, ci)
        if ci.kind in ("namedtuple", "dataclass") and not ci.find("__init__"):
            names = []
            for c in reversed(ci.mro()):
                if isinstance(c, ClassInfo):
                    for n, d in c.annots:
                        if n in [x[0] for x in names]:
                            names = [(a, d if a == n else b) for a, b in names]
                        else:
                            names.append((n, d))
            d = {}
            outs = [("ok", st, slf)]
            pos = list(args)
            for i, (n, dflt) in enumerate(names):
                if i < len(pos) and pos[i].tag != "rest":
                    d[n] = pos[i]
                elif any(p.tag == "rest" for p in pos):
                    r = next(p for p in pos if p.tag == "rest")
                    d[n] = T("item", r.a[0], C(i))
                elif n in kwargs:
                    d[n] = kwargs[n]
                elif dflt is not None:
                    if isinstance(dflt, ast.Call) and "field" in ast.unparse(dflt.func):
                        fac = next((k.value for k in dflt.keywords if k.arg == "default_factory"), None)
                        dv = next((k.value for k in dflt.keywords if k.arg == "default"), None)
                        if fac is not None:
                            o = self.bind(self._ev_in(fac, st, ci), lambda st, fvv: self.call(st, fvv, [], {}, dflt))
                            d[n] = o[0][2]
                        elif dv is not None:
                            d[n] = self._ev_in(dv, st, ci)[0][2]
                    else:
                        d[n] = self._ev_in(dflt, st, ci)[0][2]
            st.heap[slf] = Obj("inst", ci, d)
            return outs
        r = ci.find("__init__")
        if r is None:
            if ci.kind == "exception":
                st.heap[slf] = st.heap[slf].put("args", Tup(args))
            elif args or kwargs:
                st.heap[slf] = st.heap[slf].put("$args", Tup([a for a in args]))
            return [("ok", st, slf)]
        return self.bind(self.call(st, Bound(slf, Fn(r[2], None)), args, kwargs, node), lambda st, _: [("ok", st, slf)])

    def init_new(self, st, ci, o, args, kwargs, node):
        if o.tag != "ref":
            o = self.new_inst(st, node, ci)
        r = ci.find("__init__")
        if r is None or getattr(st.heap[o].cls, "qual", None) != ci.qual:
            return [("ok", st, o)]
        return self.bind(self.call(st, Bound(o, Fn(r[2], None)), args, kwargs, node), lambda st, _: [("ok", st, o)])

    def new_base(self, st, args, node):
        """object.__new__(cls) / str.__new__(cls, text)"""
        if args and args[0].tag == "cls":
            return [("ok", st, self.new_inst(st, node, args[0].a[0], {"$str": args[1]} if len(args) > 1 else None))]
        return None

    def text_of(self, st, v):
        """the text of an instance of a str subclass, else None"""
        if v.tag == "ref" and v in st.heap and st.heap[v].kind == "inst":
            d = st.heap[v].d
            return d.get("$str") if isinstance(d, dict) else None
        return None

    def _ev_in(self, node, st, ci):
        saved = st.frame
        fr = self.alloc(st, node, Obj("frame", _FakeFn(ci.module), {}))
        st.frame = fr
        outs = self.ev(node, st)
        for o in outs:
            o[1].frame = saved
        return outs

    # -- user functions ------------------------------------------------------
    def call_fn(self, st, fv, args, kwargs, node, awaiting=False, as_gen=None):
        if fv.tag == "bound":
            return self.call_fn(st, fv.a[1], [fv.a[0]] + list(args), kwargs, node, awaiting, as_gen)
        info, env = fv.a
        self.fns_seen[info.qual] = self.loc(info.node)
        depth = sum(1 for f in self.active if f is info)
        if depth >= self.maxrec or len(self.active) > 120:
            self.notes.append(f"recursion bound at {info.qual}")
            return self.unknown_call(st, T("rec", info.qual), args, kwargs, node)
        outs = self.bind_args(st, info, env, args, kwargs, node)
        res = []
        nheld = len(self.held)
        self.held.extend(x for x in args if isinstance(x, V))
        self.held.extend(x for x in kwargs.values() if isinstance(x, V))
        try:
            return self._call_fn(st, outs, res, info, env, node, as_gen)
        finally:
            del self.held[nheld:]

    def _call_fn(self, st, outs, res, info, env, node, as_gen):
        caller = (st.frame, st.stack, st.frames)
        for k, s2, d in outs:
            if k != "ok":
                res.append((k, s2, d))
                continue
            fr = self.alloc(s2, "F" + info.qual + "@" + str(self.nid(node)), Obj("frame", info, d, base=env))
            s2.frame = fr
            s2.frames = caller[2] + (fr,)
            s2.stack = caller[1] + (self.nid(node),)
            hs = s2.handlers
            self.active.append(info)
            if as_gen is not None:
                def wrapped(s3, v, fr=fr, caller=caller):
                    inner = (s3.frame, s3.stack, s3.frames)
                    s3.frame, s3.stack, s3.frames = caller
                    s3.frames = caller[2] + (fr,)
                    self.active.pop()
                    o2 = as_gen(s3, v)
                    self.active.append(info)
                    out = []
                    for kk, s4, vv in o2:
                        s4.frame, s4.stack, s4.frames = inner
                        if kk == "gx2":
                            # context-manager body left by return/break/continue: resume generator normally
                            s4.mon["$gx2"] = vv
                            out.append(("ok", s4, NONE))
                        else:
                            out.append((kk, s4, vv))
                    return out
                old = self.yieldh.get(fr)
                self.yieldh[fr] = wrapped
            try:
                if isinstance(info.node, ast.Lambda):
                    bouts = [("return", o[1], o[2]) if o[0] == "ok" else o for o in self.ev(info.node.body, s2)]
                else:
                    bouts = self.block(info.node.body, s2)
            finally:
                self.active.pop()
                if as_gen is not None:
                    if old is None:
                        self.yieldh.pop(fr, None)
                    else:
                        self.yieldh[fr] = old
            for kk, s3, v in bouts:
                s3.frame, s3.stack, s3.frames = caller
                s3.handlers = hs
                if kk == "next":
                    res.append(("ok", s3, NONE))
                elif kk == "return":
                    res.append(("ok", s3, v))
                else:
                    res.append((kk, s3, v))
        if len(res) > 1:
            res = self.dedupe(res)
            if self.join_sync is not None and len(res) > self.join_sync and as_gen is None and not isinstance(info.node, ast.AsyncFunctionDef):
                res = self.join_outs(res, ("c", info.qual, self.nid(node)))
        return res

    def exc_name(self, st, v):
        if v.tag == "ref" and v in st.heap:
            c = st.heap[v].cls
            return getattr(c, "qual", None) or repr(c)
        if is_t(v, "exc"):
            return v.a[1]
        return show(v)

    def join_outs(self, res, tag):
        """least upper bound of a call's outcomes: one per kind / exception class / constant result"""
        groups = {}
        for k, s, v in res:
            if k == "raise":
                key = (k, self.exc_name(s, v))
            elif isinstance(v, V):
                key = (k, v if is_c(v) or v.tag in ("fn", "bound", "cls") else None)
            else:
                key = (k, repr(v))
            key = key + (s.frame, s.handlers, tuple(sorted(((a, b) for a, b in s.mon.items()), key=lambda kv: str(kv[0]))))
            groups.setdefault(key, []).append((k, s, v))
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            v = g[0][2]
            if any(x[2] is not v for x in g):
                if g[0][0] == "ok":
                    v = T("lv", tag, "result", self.marks(g[0][1]))
                # an exception of the same class: keep the first instance's identity
            s = self.join([x[1] for x in g], tag)
            if v.tag == "ref" and v not in s.heap:
                v = T("lv", tag, "result", self.marks(g[0][1]))
            out.append((g[0][0], s, v))
        return out

    def bind_args(self, st, info, env, args, kwargs, node):
        a = info.node.args
        pos = a.posonlyargs + a.args
        d = {}
        kwargs = dict(kwargs)
        restpos = [x for x in args if x.tag == "rest"]
        if restpos:
            i = next(i for i, x in enumerate(args) if x.tag == "rest")
            src = args[i].a[0]
            fixed = list(args[:i])
            for j, p in enumerate(pos):
                if j < len(fixed):
                    d[p.arg] = fixed[j]
                elif p.arg in kwargs:
                    d[p.arg] = kwargs.pop(p.arg)
                else:
                    d[p.arg] = T("item", src, C(j - i))
            if a.vararg:
                d[a.vararg.arg] = self.new_list(st, node, args[len(pos):] or (args[i],)) if len(fixed) >= len(pos) else src
        else:
            for p, v in zip(pos, args):
                d[p.arg] = v
            extra = args[len(pos):]
            if a.vararg:
                d[a.vararg.arg] = Tup(extra)
            elif extra:
                e = self.new_inst(st, node, Ext("builtins.TypeError"))
                st.note(self.loc(node), f"too many arguments for {info.qual}")
                return [("raise", st, e)]
        for p in a.args + a.kwonlyargs:
            if p.arg not in d and p.arg in kwargs:
                d[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwargs:
                st.note(self.loc(node), f"multiple values for argument {p.arg} of {info.qual}")
                return [("raise", st, self.new_inst(st, node, Ext("builtins.TypeError")))]
        star = kwargs.pop("**", None)
        # defaults
        nd = len(a.defaults)
        dmap = {p.arg: dv for p, dv in zip(pos[len(pos) - nd:], a.defaults)} if nd else {}
        for p, dv in zip(a.kwonlyargs, a.kw_defaults):
            if dv is not None:
                dmap[p.arg] = dv
        outs = [("ok", st, d)]
        for p in pos + a.kwonlyargs:
            if p.arg in d:
                continue
            if star is not None and p.arg in dmap:
                nx = []
                for o in outs:
                    if o[0] != "ok":
                        nx.append(o)
                        continue
                    for b, s2 in self.branch(o[1], T("in", C(p.arg), star)):
                        if b:
                            nx.append(("ok", s2, {**o[2], p.arg: T("item", star, C(p.arg))}))
                        else:
                            for oo in self.default_value(s2, info, env, dmap[p.arg]):
                                nx.append(("ok", oo[1], {**o[2], p.arg: oo[2]}) if oo[0] == "ok" else oo)
                outs = nx
            elif star is not None:
                outs = [("ok", o[1], {**o[2], p.arg: T("item", star, C(p.arg))}) if o[0] == "ok" else o for o in outs]
            elif p.arg in dmap:
                nx = []
                for o in outs:
                    if o[0] != "ok":
                        nx.append(o)
                        continue
                    for oo in self.default_value(o[1], info, env, dmap[p.arg]):
                        nx.append(("ok", oo[1], {**o[2], p.arg: oo[2]}) if oo[0] == "ok" else oo)
                outs = nx
            else:
                st.note(self.loc(node), f"missing argument {p.arg} for {info.qual}")
                e = self.new_inst(st, node, Ext("builtins.TypeError"))
                return [("raise", st, e)]
        if a.kwarg:
            outs = [("ok", o[1], {**o[2], a.kwarg.arg: self.new_dict(o[1], node, {C(k): v for k, v in kwargs.items()}, star)}) if o[0] == "ok" else o for o in outs]
        elif kwargs:
            st.note(self.loc(node), f"unexpected keyword {sorted(kwargs)} for {info.qual}")
            return [("raise", st, self.new_inst(st, node, Ext("builtins.TypeError")))]
        return outs

    def default_value(self, st, info, env, node):
        if isinstance(node, ast.Constant):
            return [("ok", st, C(node.value))]
        key = mk("gref", ("default", self.nid(node)))
        if key in st.heap:
            return [("ok", st, st.heap[key].base)]
        saved = (st.frame, st.stack)
        if env is not None:
            given = st.heap[env].d.get(f"$default{self.nid(node)}") if env in st.heap else None
            if given is not None:
                return [("ok", st, given)]
            st.frame = env
            outs = self.ev(node, st)
            for o in outs:
                o[1].frame = saved[0]
            return outs
        fr = self.alloc(st, node, Obj("frame", _FakeFn(info.module), {}))
        st.frame = fr
        st.stack = (("d", self.nid(node)),)
        outs = self.ev(node, st)
        for o in outs:
            o[1].frame, o[1].stack = saved
            if o[0] == "ok":
                o[1].heap[key] = Obj("gref", None, {}, base=o[2])
        return outs

    # -- builtin container methods: see lib.py -------------------------------
    def call_bm(self, st, recv, name, args, kwargs, node):
        from . import lib
        return lib.call_bm(self, st, recv, name, args, kwargs, node)


class _FakeFn:
    """stands for module level code"""
    def __init__(self, module):
        self.module = module
        self.cls = None
        self.qual = module.name
        self.locals = set()
        self.node = None

    def __eq__(self, o):
        return isinstance(o, _FakeFn) and o.module is self.module

    def __hash__(self):
        return hash(self.module.name)


class _Box(V):
    """AST node wrapped so it can sit in a value"""
    __slots__ = ("node",)
    _t = {}

    def __new__(cls, node):
        return node


class _FactBox:
    _t: dict = {}

    def __new__(cls, f):
        k = f.key()
        b = cls._t.get(k)
        if b is None:
            b = object.__new__(cls)
            b.f = f
            cls._t[k] = b
        return b

    def __repr__(self):
        return repr(self.f)


_ALWAYS_TRUE = frozenset(("starlette.authentication.AuthenticationError",))
_BOOLOPS = {"eq", "lt", "pos", "in", "isinstance", "not", "and", "or", "hasattr", "exists", "callable", "unpackable", "truthobj", "nonempty", "raises"}
STR_PARTLY = {"startswith", "endswith", "removeprefix", "removesuffix", "rstrip", "lstrip", "strip", "replace"}
_NOTNONE = {"hdr", "concat", "str", "len", "sum", "eq", "lt", "pos", "in", "call_", "slice", "exc", "min", "max", "listval", "keys", "fmt"}
_NOTNONE_CALLS = {"re.compile", "re.escape", "urllib.parse.urlsplit", "urllib.parse.urlunsplit", "urllib.parse.quote", "urllib.parse.quote_plus",
                  "urllib.parse.unquote", "urllib.parse.urlencode", "urllib.parse.parse_qsl", "itsdangerous.TimestampSigner", "json.dumps",
                  "os.path.join", "os.path.realpath", "os.path.abspath", "os.path.normpath", "os.path.commonpath", "os.stat", "inspect.signature",
                  "base64.b64encode", "base64.b64decode", "time.time", "email.utils.formatdate", "html.escape"}
_ABC = {m + n: ms for m in ("typing.", "collections.abc.") for n, ms in {
    "Iterable": ("__iter__",), "Iterator": ("__iter__", "__next__"), "AsyncIterable": ("__aiter__",), "AsyncIterator": ("__aiter__", "__anext__"),
    "Awaitable": ("__await__",), "Sized": ("__len__",), "Container": ("__contains__",)}.items()}
_LEAF = {"builtins.str", "builtins.bytes", "builtins.int", "builtins.dict", "builtins.list", "builtins.tuple", "builtins.memoryview", "builtins.float"}
_DUCK = {"builtins.dict": {"typing.Mapping", "collections.abc.Mapping"}, "builtins.list": {"typing.Sequence", "collections.abc.Sequence"},
         "builtins.str": {"typing.Sequence"}}
_OPNAMES = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitOr: "or", ast.BitAnd: "and", ast.BitXor: "xor"}
_HARMLESS_BASES = {"builtins.object", "typing.Generic", "typing.Protocol", "typing.Mapping", "typing.MutableMapping", "abc.ABC",
                   "typing.Sequence", "typing.Awaitable", "typing.AsyncContextManager", "typing.NamedTuple"}
_MAPPING_MIXIN = {"get", "items", "keys", "values", "pop", "setdefault", "update", "popitem", "clear", "__contains__", "__eq__", "index", "count"}
_RAISES = {
    "builtins.int": ("builtins.ValueError",),
    "builtins.float": ("builtins.ValueError",),
    "json.loads": ("json.JSONDecodeError",),
    "base64.b64decode": ("binascii.Error",),
    "os.path.commonpath": ("builtins.ValueError",),
    "email.utils.parsedate": (),
    "importlib.util.find_spec": (),
}


def docstring(fi):
    d = None if isinstance(fi.node, ast.Lambda) else ast.get_docstring(fi.node, clean=False)
    return NONE if d is None else C(d)


def _flat(x):
    if isinstance(x, V):
        yield x
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            yield from _flat(y)


def st_set(eng, st, name, v):
    """bind a name in the right frame (nonlocal aware)"""
    fr = st.frame
    o = st.heap[fr]
    info = o.cls
    if info is not None and name in getattr(info, "globals_", ()) and info.module is not None:
        g = mk("globals", (info.module.name,))
        eng.global_keys.add(g)
        st.heap[g] = (st.heap.get(g) or Obj("globals")).put(name, v)
        return st
    if info is not None and name in getattr(info, "nonlocals", ()):
        f2 = o.base
        while f2 is not None:
            o2 = st.heap[f2]
            if name in o2.d or (o2.cls is not None and name in o2.cls.locals):
                st.heap[f2] = o2.put(name, v)
                return st
            f2 = o2.base
    st.heap[fr] = o.put(name, v)
    return st


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    raise Cut("augassign")


def _src(n):
    s = ast.unparse(n)
    return s if len(s) < 90 else s[:87] + "..."


def eqt(a, b):
    if is_c(b) or (a.n > b.n and not is_c(a)):
        pass
    if is_c(a) and not is_c(b):
        a, b = b, a
    elif not is_c(b) and repr(a) > repr(b):
        a, b = b, a
    return T("eq", a, b)


def builtin_class(q):
    import builtins
    return q.startswith("builtins.") and isinstance(getattr(builtins, q[9:], None), type)


def mro_values(mro):
    """classes of a method resolution order as values, builtin bases expanded"""
    import builtins
    out = []
    for c in mro:
        if isinstance(c, ClassInfo):
            out.append(Cls(c))
            continue
        q = c.a[0]
        py = getattr(builtins, q[9:], None) if q.startswith("builtins.") else None
        xs = [Ext("builtins." + k.__name__) for k in py.__mro__] if isinstance(py, type) else [c]
        out.extend(x for x in xs if x not in out)
    # object / Exception of several bases come last
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


def mkor(ts):
    ts2 = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if is_t(t, "or"):
            ts2.extend(t.a[1:])
        else:
            ts2.append(t)
    if not ts2:
        return FALSE
    if len(ts2) == 1:
        return ts2[0]
    return T("or", *ts2)


def lin(eng, st, pairs):
    """linear normal form"""
    const = 0
    co = {}

    def add(c, v):
        nonlocal const
        v = eng.known(st, v)
        if is_c(v):
            const += c * cval(v)
        elif is_t(v, "sum"):
            const += c * v.a[1]
            for t, k in v.a[2]:
                co[t] = co.get(t, 0) + c * k
        else:
            co[v] = co.get(v, 0) + c
    for c, v in pairs:
        try:
            add(c, v)
        except TypeError:
            return T("bin", "Arith", *[x for _, x in pairs])
    co = {t: k for t, k in co.items() if k != 0}
    if not co:
        return C(const)
    if const == 0 and len(co) == 1:
        (t, k), = co.items()
        if k == 1:
            return t
    return T("sum", const, tuple(sorted(co.items(), key=lambda tk: repr(tk[0]))))


def percent(eng, st, fmt, b):
    """pieces of a %-format, None if not understood"""
    import re
    parts = re.split(r"(%[sdr])", fmt)
    n = len(parts) // 2
    if "%" in "".join(parts[::2]).replace("%%", ""):
        return None
    args = list(b.a) if b.tag == "tup" else [b]
    if len(args) != n:
        return None
    return [(args[i // 2], "r" if p == "%r" else "s", "") if i % 2 else C(p.replace("%%", "%")) for i, p in enumerate(parts)]


def concat_cannot_be(t, s):
    parts = t.a[1:]
    if is_c(parts[0]) and type(cval(parts[0])) is type(s) and not s.startswith(cval(parts[0])):
        return True
    if is_c(parts[-1]) and type(cval(parts[-1])) is type(s) and not s.endswith(cval(parts[-1])):
        return True
    tot = sum(len(cval(p)) for p in parts if is_c(p) and isinstance(cval(p), (str, bytes)))
    return tot > len(s)


class Env:
    """environment of an analysis: what the program's unknown callees do.  Subclasses override; None = default."""

    def call(self, eng, st, fv, args, kwargs, node):
        return None

    def await_(self, eng, st, v, node):
        return None

    def with_(self, eng, st, cm, node, inner, is_async):
        return None

    def element(self, eng, st, src, val, node):
        return None

    def exhausted(self, eng, st, src, node):
        return None

    def segments(self, eng, st, it, node, is_async):
        return None

    def getattr(self, eng, st, b, name, node):
        return None

    def setattr(self, eng, st, b, name, v, node):
        return None

    def getitem(self, eng, st, b, k, node):
        return None

    def setitem(self, eng, st, b, k, v, node):
        return None

    def delitem(self, eng, st, b, k, node):
        return None

    def contains(self, eng, st, a, b, node):
        return None

    def global_value(self, eng, st, module, name):
        return None
