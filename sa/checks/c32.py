"""Headers and MutableHeaders against a reference list of byte pairs, by constant propagation through client programs.

Representative raw lists (duplicates, upper case, non-ASCII, empty values) and every operation, with keys in several cases, are
interpreted one and two operations deep and every observation is compared with the reference.
"""
from itertools import product

from ..interp import Cut
from ..mw import *
from .c30 import call, lit, seq, text
from .common import *

CLIENT32 = '''
from starlette.datastructures import Headers, MutableHeaders

def build(form, data, mutable):
    C = MutableHeaders if mutable else Headers
    if form == "mapping":
        return C(data)
    if form == "named":
        return C(headers=data)
    if form == "raw":
        return C(raw=data)
    if form == "scope":
        return C(scope={"headers": data})
    if form == "headers":
        return C(Headers(raw=data))
    if form == "copy":
        return Headers(raw=data).mutablecopy()
    return C()

def look(h, keys):
    got = []
    for k in keys:
        try:
            got.append(h[k])
        except KeyError:
            got.append(None)
    inside = [k in h for k in keys]
    lists = [h.getlist(k) for k in keys]
    gets = [h.get(k) for k in keys]
    defaults = [h.get(k, "dflt") for k in keys]
    return list(h.raw), got, inside, lists, gets, defaults, len(h), list(h), list(h.keys()), list(h.values()), list(h.items())

def op(h, name, key, a):
    if name == "set":
        h[key] = a
    elif name == "del":
        del h[key]
    elif name == "setdefault":
        return h.setdefault(key, a)
    elif name == "append":
        h.append(key, a)
    elif name == "update":
        h.update({key: a, "X-Z": "z"})
    elif name == "update headers":
        h.update(Headers(raw=[(b"x-a", b"u1"), (b"x-z", b"u2"), (b"x-a", b"u3")]))
    elif name == "vary":
        h.add_vary_header(a)

def play(form, data, mutable, ops, keys):
    h = build(form, data, mutable)
    out = []
    for name, key, a in ops:
        try:
            r = op(h, name, key, a)
        except UnicodeError:
            r = UnicodeError
        out.append(r)
    return out, look(h, keys)

def union(data, key, a, inplace, bad, keys):
    h = MutableHeaders(raw=data)
    copy = h.mutablecopy()
    other = {key: a}
    try:
        if inplace:
            g = h
            g |= [(key, a)] if bad else other
        else:
            g = h | ([(key, a)] if bad else other)
    except TypeError:
        return "refused", look(h, keys), look(copy, keys)
    return g is h, look(g, keys), look(h, keys), look(copy, keys)

def shared(data, keys):
    message = {"type": "http.response.start", "headers": data}
    h = MutableHeaders(scope=message)
    h.append("X-New", "1")
    h["x-a"] = "2"
    del h["x-b"]
    g = MutableHeaders(raw=message["headers"])
    g.append("X-Raw", "3")
    frozen = Headers(raw=message["headers"])
    raw = frozen.raw
    raw.append((b"x-gone", b"1"))
    copy = frozen.mutablecopy()
    copy["x-gone"] = "1"
    return list(message["headers"])

def same(a, b):
    return Headers(raw=a) == Headers(raw=b)

def other(a):
    return Headers(raw=a) == {"x-a": "1"}
'''
Q = "starlette.datastructures.MutableHeaders"
KEYS = ["x-a", "X-B", "x-Z", "vary", "X-\xc9"]
LISTS = [
    [],
    [(b"x-a", b"1")],
    [(b"x-a", b"1"), (b"x-b", b"2"), (b"x-a", b"3")],
    [(b"x-b", b"\xe9"), (b"x-a", b""), (b"x-b", b"2"), (b"x-a", b"3"), (b"x-a", b"4")],
    [(b"vary", b"Accept"), (b"x-a", b"1"), (b"vary", b"Cookie, Origin")],
    [(b"x-\xe9", b"1"), (b"x-a", b"2"), (b"x-\xe9", b"3")],
]
OPS = [(n, k, v) for n in ("set", "setdefault", "append", "update") for k in ("X-A", "x-b", "X-Z") for v in ("new", "\xe9")] + [("del", k, "") for k in ("X-A", "x-b", "X-Z")] + [
    ("update headers", "", ""), ("vary", "", "Accept-Encoding"), ("set", "x-a", ""), ("set", "X-A", "\u20ac"), ("append", "x-b", "\u20ac"), ("setdefault", "X-Z", "\u20ac"), ("set", "x-\xe9", "new"), ("append", "X-\xc9", "new"), ("setdefault", "x-\xe9", "new"), ("del", "x-\xe9", "")]
ERR = object()


def enc(k, v):
    return k.lower().encode("latin-1"), v.encode("latin-1")


def put(items, k, v):
    k, v = enc(k, v)
    out, done = [], False
    for x in items:
        if x[0] != k:
            out.append(x)
        elif not done:
            out.append((k, v))
            done = True
    return out if done else out + [(k, v)]


def ref(items, name, key, a):
    """(result, items)"""
    try:
        if name == "set":
            return NONE, put(items, key, a)
        if name == "del":
            return NONE, [x for x in items if x[0] != key.lower().encode("latin-1")]
        if name == "setdefault":
            enc(key, a)
            old = [v for k, v in items if k == key.lower().encode("latin-1")]
            return (C(old[0].decode("latin-1")), items) if old else (C(a), items + [enc(key, a)])
        if name == "append":
            return NONE, items + [enc(key, a)]
        if name == "update":
            return NONE, put(put(items, key, a), "X-Z", "z")
        if name == "update headers":
            for k, v in (("x-a", "u1"), ("x-z", "u2"), ("x-a", "u3")):
                items = put(items, k, v)
            return NONE, items
        if name == "vary":
            return NONE, put(items, "vary", ", ".join([v.decode("latin-1") for k, v in items if k == b"vary"] + [a]))
    except UnicodeError:
        return ERR, items
    raise KeyError(name)


def run(ctx):
    ctx.rule("observe", "lookup, get, in and getlist find headers in any case and decode latin-1, the first value winning; raw, keys, values, items, iteration and len give the whole list in order")
    ctx.rule("construct", "from a mapping names are lower-cased and encoded in latin-1; from raw, scope and copies the list is taken as it is")
    ctx.rule("operate", "set replaces the first in place and removes the others, append adds, setdefault adds only a missing one, delete removes all, update sets each, add_vary_header keeps all existing values; a value that is not latin-1 raises and changes nothing")
    ctx.rule("union", "| makes a new object and |= changes in place, both like update; anything but a mapping raises TypeError")
    ctx.rule("shared", "MutableHeaders over raw or scope writes through to that list; Headers.raw and mutablecopy give copies")
    ctx.rule("equal", "Headers are equal if they hold the same pairs in any order, and never to something else")
    ctx.client(CLIENT32)
    for items in LISTS:
        for mutable in (True, False):
            for form in ("raw", "scope", "copy"):
                play(ctx, form, items, items, mutable, [], "construct")
            for form in ("scope",):
                play(ctx, form, tuple(items), items, mutable, [], "construct")
            d = {k.decode("latin-1").title(): v.decode("latin-1") for k, v in reversed(items)}
            for form in ("mapping", "named"):
                play(ctx, form, d, [enc(k, v) for k, v in d.items()], mutable, [], "construct")
    play(ctx, "none", None, [], True, [], "construct")
    play(ctx, "none", None, [], False, [], "construct")
    for items in LISTS:
        for o in OPS:
            play(ctx, "raw", items, items, True, [o], "operate")
    for o in product(OPS, OPS if ctx.tier != "quick" else [x for x in OPS if x[2] not in ("\xe9", "\u20ac")]):
        play(ctx, "raw", LISTS[3], LISTS[3], True, o, "operate")
    for items in LISTS:
        for key, a in (("X-A", "new"), ("x-z", "\xe9")):
            for inplace in (True, False):
                for bad in (True, False):
                    union(ctx, items, key, a, inplace, bad)
    for items in LISTS:
        shared(ctx, items)
    for a in LISTS:
        for b in LISTS + [list(reversed(a)), a[:-1]]:
            equal(ctx, a, b)
    ctx.need("construct", 20)
    ctx.need("operate", 600)
    ctx.need("union", 30)
    ctx.need("shared", 5)
    ctx.need("equal", 30)


def start(ctx):
    eng = ctx.engine(MwEnv())
    eng.max_steps = 200_000
    for k in [k for k in eng.models if k.startswith(("starlette.datastructures.Headers.", "starlette.datastructures.MutableHeaders."))]:
        del eng.models[k]           # the summaries the other checks use; this check is what justifies them
    return eng, eng.start_state()


def look(s, view, items):
    xs = seq(s, view)
    if xs is None or len(xs) != 11:
        return "cannot be observed"
    raw, got, inside, lists, gets, defaults, n, it, ks, vs, its = xs

    def cmp(what, x, want):
        have = deep(s, x)
        return None if have == want else f"{what} is {have!r}, expected {want!r}"
    dec = [(k.decode("latin-1"), v.decode("latin-1")) for k, v in items]
    every = [[v for k, v in dec if k == key.lower()] for key in KEYS]
    first = [x[0] if x else None for x in every]
    return (cmp("raw", raw, items) or cmp(f"lookup of {KEYS}", got, first) or cmp(f"in for {KEYS}", inside, [bool(x) for x in every])
            or cmp("getlist", lists, every) or cmp("get", gets, first) or cmp("get with default", defaults, [x[0] if x else "dflt" for x in every])
            or cmp("len", n, len(items)) or cmp("iteration", it, [k for k, _ in dec]) or cmp("keys", ks, [k for k, _ in dec])
            or cmp("values", vs, [v for _, v in dec]) or cmp("items", its, dec))


def deep(s, v):
    if v.tag == "tup":
        return tuple(deep(s, x) for x in v.a)
    xs = seq(s, v)
    if xs is not None:
        return [deep(s, x) for x in xs]
    return cval(v) if is_c(v) else f"<{show(v)}>"


def play(ctx, form, data, items, mutable, ops, rule):
    eng, st = start(ctx)
    outs = []
    now = items
    for o in ops:
        r, now = ref(now, *o)
        outs.append(r)
    what = f"{', '.join(f'{n}({k!r}, {v!r})' for n, k, v in ops) or 'nothing'} on {'Mutable' if mutable else ''}Headers from {form} of {items}"
    where = Q + "." + (METHOD[ops[-1][0]] if ops else "__init__")
    try:
        res = call(ctx, eng, st, "play", [C(form), lit(eng, st, data), B(mutable), Tup([Tup([C(x) for x in o]) for o in ops]), Tup([C(k) for k in KEYS])])
    except Cut as ex:
        return ctx.undecided(f"{what}: {ex}")
    for k, s, v in res:
        ctx.oblige(rule)
        rep = lambda r, t: eng.report(r, where, s, f"{what}: {t}")
        if k != "ok":
            rep(rule, f"raises {show(v)}")
            continue
        got, view = seq(s, v)
        for o, g, w in zip(ops, seq(s, got), outs):
            if g is not (Ext("builtins.UnicodeError") if w is ERR else w):
                rep("operate", f"{o[0]} gives {show(g)}, expected {'UnicodeError' if w is ERR else show(w)}")
        bad = look(s, view, now)
        if bad:
            rep(rule, bad)


METHOD = {"set": "__setitem__", "del": "__delitem__", "setdefault": "setdefault", "append": "append", "update": "update", "update headers": "update", "vary": "add_vary_header"}


def union(ctx, items, key, a, inplace, bad):
    eng, st = start(ctx)
    want = put(items, key, a)
    what = f"{items} {'|=' if inplace else '|'} {'a list' if bad else {key: a}}"
    for k, s, v in call(ctx, eng, st, "union", [lit(eng, st, items), C(key), C(a), B(inplace), B(bad), Tup([C(x) for x in KEYS])]):
        ctx.oblige("union")
        rep = lambda t: eng.report("union", Q + (".__ior__" if inplace else ".__or__"), s, f"{what}: {t}")
        if k != "ok":
            rep(f"raises {show(v)}")
            continue
        xs = seq(s, v)
        if bad:
            if xs[0] is not C("refused") or look(s, xs[1], items) or look(s, xs[2], items):
                rep("is not refused with TypeError")
            continue
        if xs[0] is C("refused"):
            rep("raises TypeError")
            continue
        if xs[0] is not B(inplace):
            rep("gives another object" if inplace else "changes the left operand in place")
        for name, x, w in (("the result", xs[1], want), ("the left operand", xs[2], want if inplace else items), ("a copy", xs[3], items)):
            t = look(s, x, w)
            if t:
                rep(f"{name}: {t}")


def shared(ctx, items):
    for kind in (list, tuple):
        eng, st = start(ctx)
        want = put(items + [(b"x-new", b"1")], "x-a", "2")
        want = [x for x in want if x[0] != b"x-b"] + [(b"x-raw", b"3")]
        for k, s, v in call(ctx, eng, st, "shared", [lit(eng, st, kind(items)), Tup([C(x) for x in KEYS])]):
            ctx.oblige("shared")
            got = deep(s, v) if k == "ok" else f"raises {show(v)}"
            if got != want:
                eng.report("shared", "starlette.datastructures.Headers", s, f"changes through headers of a message whose headers are the {kind.__name__} {items}: {got!r}, expected {want!r}")


def equal(ctx, a, b):
    eng, st = start(ctx)
    for k, s, v in call(ctx, eng, st, "same", [lit(eng, st, a), lit(eng, st, b)]):
        ctx.oblige("equal")
        if k != "ok" or v is not B(sorted(a) == sorted(b)):
            eng.report("equal", "starlette.datastructures.Headers.__eq__", s, f"{a} == {b}: {show(v)}")
    eng, st = start(ctx)
    for k, s, v in call(ctx, eng, st, "other", [lit(eng, st, a)]):
        if k != "ok" or v is not FALSE:
            eng.report("equal", "starlette.datastructures.Headers.__eq__", s, f"headers {a} == a dict: {show(v)}")
