"""Abstract values: hash-consed provenance terms.

Every value the analyser manipulates is an interned ``V`` so equality is identity.  A value is either a constant
that appears in the analysed source, a reference to an abstract heap object, a program entity (function, class,
module, external name) or a provenance term saying *where a run-time value comes from* ("item 'type' of the scope",
"lower-case of header host of scope").  Nothing here is ever a concrete run-time input.
"""
from __future__ import annotations

_table: dict = {}


class V:
    __slots__ = ("tag", "a", "_r", "n", "lp")

    def __repr__(self):
        if self._r is None:
            self._r = show(self)
        return self._r

    def __reduce__(self):
        raise TypeError


_n = [0]


def mk(tag, a):
    k = (tag, a)
    v = _table.get(k)
    if v is None:
        v = V()
        v.tag = tag
        v.a = a
        v._r = None
        _n[0] += 1
        v.n = _n[0]
        v.lp = loops_of(tag, a)
        _table[k] = v
    return v


def loops_of(tag, a):
    """set of loop ids (and 'prev' marks) a value depends on"""
    s = frozenset()
    for x in a:
        s = s | _lp(x)
    return s


def _lp(x):
    if isinstance(x, V):
        return x.lp
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s = s | _lp(y)
        return s
    if isinstance(x, LoopMark):
        return frozenset((x,))
    return frozenset()


class LoopMark:
    """marks a value as created in the current / previous / any older iteration of a loop"""
    __slots__ = ("lid", "age")
    _t: dict = {}

    def __new__(cls, lid, age):
        k = (lid, age)
        m = cls._t.get(k)
        if m is None:
            m = object.__new__(cls)
            m.lid = lid
            m.age = age
            cls._t[k] = m
        return m

    def __repr__(self):
        return f"{'cur' if self.age == 0 else 'prev'}"


def C(v):
    return mk("c", (type(v).__name__, v))


def T(op, *args):
    return mk("t", (op,) + args)


def Tup(items):
    return mk("tup", tuple(items))


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ABSENT = mk("absent", ())


def B(b):
    return TRUE if b else FALSE


def Ext(q):
    return mk("ext", (q,))


def Mod(q):
    return mk("mod", (q,))


def is_c(v):
    return v.tag == "c"


def cval(v):
    return v.a[1]


def is_t(v, op=None):
    return v.tag == "t" and (op is None or v.a[0] == op)


class FnInfo:
    """a function definition in the analysed source"""
    __slots__ = ("node", "module", "qual", "cls", "is_async", "is_gen", "locals", "nonlocals", "globals_", "deco", "name")

    def __init__(self, node, module, qual, cls=None):
        import ast
        self.node = node
        self.module = module
        self.qual = qual
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = False
        self.locals = set()
        self.nonlocals = set()
        self.globals_ = set()
        self.deco = []
        self._scan()

    def _scan(self):
        import ast
        n = self.node
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = n.body if isinstance(n.body, list) else [n.body]

        def walk(x):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(x.name)
                for d in x.decorator_list:
                    walk(d)
                return
            if isinstance(x, ast.Lambda):
                return
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(x, ast.Nonlocal):
                self.nonlocals.update(x.names)
            if isinstance(x, ast.Global):
                self.globals_.update(x.names)
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                self.locals.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name:
                self.locals.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    self.locals.add((al.asname or al.name).split(".")[0])
            for c in ast.iter_child_nodes(x):
                walk(c)

        for s in body:
            walk(s)
        self.locals -= self.nonlocals
        self.locals -= self.globals_

    def __repr__(self):
        return f"<fn {self.qual}>"


def Fn(info, env=None):
    return mk("fn", (info, env))


def Bound(self, fn):
    return mk("bound", (self, fn))


def Bm(recv, name):
    return mk("bm", (recv, name))


def show(v, depth=0):
    if not isinstance(v, V):
        return repr(v)
    if depth > 6:
        return "…"
    d = depth + 1
    t, a = v.tag, v.a
    if t == "c":
        return repr(a[1])
    if t == "tup":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if t == "ref":
        return f"<obj@{a[0]}>"
    if t == "fn":
        return f"<fn {a[0].qual}>"
    if t == "bound":
        return f"<method {show(a[1], d)}>"
    if t == "cls":
        return f"<class {a[0].qual}>"
    if t in ("ext", "mod"):
        return a[0]
    if t == "t":
        op = a[0]
        if op == "sym":
            return str(a[1])
        if op == "attr":
            return f"{show(a[1], d)}.{a[2]}"
        if op == "item":
            return f"{show(a[1], d)}[{show(a[2], d)}]"
        if op == "eq":
            return f"({show(a[1], d)} == {show(a[2], d)})"
        if op == "res":
            return f"{a[1]}({', '.join(show(x, d) for x in a[2])})"
        if op == "elem":
            return f"elem({show(a[1], d)})"
        if op == "concat":
            return "+".join(show(x, d) for x in a[1:])
        if op == "m":
            return f"{show(a[2], d)}.{a[1]}({', '.join(show(x, d) for x in a[3:])})"
        return f"{op}({', '.join(show(x, d) for x in a[1:] if not isinstance(x, LoopMark))})"
    return f"{t}({', '.join(show(x, d) if isinstance(x, V) else repr(x) for x in a)})"


def subterms(v, seen=None):
    """all V's inside v (including v)"""
    out = []
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        st.extend(x.a)
    return out


def mentions(v, sub):
    return sub in subterms(v)


def rebuild(v, f, memo):
    """map f over the structure bottom-up.  f(V) -> V or None (keep)"""
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return tuple(rebuild(x, f, memo) for x in v)
        return v
    if v in memo:
        return memo[v]
    r = f(v)
    if r is None:
        na = tuple(rebuild(x, f, memo) if isinstance(x, (V, tuple)) else x for x in v.a)
        r = v if na == v.a else mk(v.tag, na)
    memo[v] = r
    return r
