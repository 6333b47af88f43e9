"""shared harness pieces: response monitors, class enumeration"""
from __future__ import annotations

from ..asgi import *
from ..interp import *
from ..program import AnchorError
from ..lib import ok
from ..values import *

RESP = "starlette.responses.Response"


def subclasses(p, qual):
    out = []
    for q, ci in sorted(p.all_classes().items()):
        if qual in ci.mro_names():
            out.append(q)
    return out


def ctor_args(eng, st, ci, preset=None):
    """symbolic keyword arguments for a class's constructor (every parameter supplied)"""
    preset = preset or {}
    r = ci.find("__init__")
    kw = {}
    if r is None or r[1] != "fn":
        return kw
    a = r[2].node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
    for n in names:
        kw[n] = preset.get(n, S(n))
    return kw


def mbool(eng, st, v, default):
    """fork over the truth of a message field: [(bool, state)]"""
    if v is None:
        return [(default, st)]
    return list(eng.branch(st, v))


def assigned_attrs(p, ci):
    """attribute names some method of the class (or a base) assigns on its first parameter"""
    names = set()
    for c in ci.mro():
        if not isinstance(c, ClassInfo):
            continue
        for kind, f in c.methods.values():
            a = f.node.args.posonlyargs + f.node.args.args
            if not a:
                continue
            me = a[0].arg
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    names.add(n.attr)
    return names


def props(ci):
    return {n for c in ci.mro() if isinstance(c, ClassInfo) for n, (k, f) in c.methods.items() if k == "property"}


def sym_inst(eng, st, ci, name="self", preset=None, lists=()):
    """an instance in an arbitrary state: every attribute its methods assign is an independent unknown"""
    base = S(name)
    d = {}
    pr = props(ci)
    for n in sorted(assigned_attrs(eng.p, ci)):
        if n not in pr:
            d[n] = T("attr", base, n)
    for n in lists:
        if n in d:
            d[n] = eng.new_list(st, "raw:" + n, [eng.rest(d[n])])
    d.update(preset or {})
    return eng.alloc(st, "inst:" + name, Obj("inst", cls=ci, d=d, base=base))


def request_message(eng, st, node):
    d = {C("type"): C("http.request")}
    r = eng.fresh(st, "receive", (), node)
    return eng.new_dict(st, node, d, base=r)


def rescall(x):
    """(method name, receiver, positional+keyword args) of an opaque method call, or None"""
    if is_t(x, "res") and isinstance(x.a[1], str) and x.a[2] and is_t(x.a[2][-1], "recv"):
        return x.a[1].rsplit(".", 1)[-1], x.a[2][-1].a[1], list(x.a[2][:-1])
    if is_t(x, "m"):
        return x.a[1], x.a[2], list(x.a[3:])
    return None


def has_fn(p, q):
    try:
        p.fn(q)
        return True
    except AnchorError:
        return False


def touches(eng, v, sub):
    """does the value depend on `sub`, also through what loops accumulated"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        for t in subterms(x):
            if t is sub:
                return True
            if t in seen:
                continue
            seen.add(t)
            if is_t(t, "lv"):
                todo.extend(eng.lvvals.get(t.a[1:4], ()))
            elif is_t(t, "acc"):
                todo.extend(eng.lvvals.get(t.a[1:3], ()))
    return False
