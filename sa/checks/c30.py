"""Multi-dicts against a reference list of pairs, by path analysis of client programs.

Every constructor form and every operation, and pairs of operations, are interpreted over representative lists of pairs with symbolic
values and compared with the reference: the two representations inside (list and dict) never disagree, whatever is observed.
"""
from itertools import product

from ..interp import Cut
from ..mw import *
from .common import *

CLIENT30 = '''
from starlette.datastructures import MultiDict, ImmutableMultiDict, QueryParams, FormData

CLASSES = {"multi": MultiDict, "immutable": ImmutableMultiDict, "query": QueryParams, "form": FormData}
def build(cls, form, pairs, kw):
    C = CLASSES[cls]
    if form == "none":
        return C(**kw)
    if form == "multidict":
        return C(MultiDict(pairs), **kw)
    if form == "iter":
        return C((p for p in pairs), **kw)
    return C(pairs, **kw)

def look(d, keys):
    items = d.multi_items()
    got = []
    for k in keys:
        try:
            v = d[k]
            got.append(False)
        except KeyError:
            v = None
            got.append(True)
        got.append(v)
    inside = [k in d for k in keys]
    lists = [d.getlist(k) for k in keys]
    gets = [d.get(k) for k in keys]
    defaults = [d.get(k, "dflt") for k in keys]
    return items, got, inside, lists, gets, defaults, len(d), list(d), list(d.keys()), list(d.values()), list(d.items())

def op(d, name, key, a, b):
    if name == "set":
        d[key] = a
    elif name == "del":
        del d[key]
    elif name == "pop":
        return d.pop(key)
    elif name == "pop default":
        return d.pop(key, a)
    elif name == "popitem":
        return d.popitem()
    elif name == "poplist":
        return d.poplist(key)
    elif name == "clear":
        d.clear()
    elif name == "setdefault":
        return d.setdefault(key, a)
    elif name == "setlist":
        d.setlist(key, [a, b])
    elif name == "setlist empty":
        d.setlist(key, [])
    elif name == "append":
        d.append(key, a)
    elif name == "update":
        d.update({key: a})
    elif name == "update pairs":
        d.update([(key, a), (key, b)])
    elif name == "update multi":
        d.update(MultiDict([(key, a), ("z", b), (key, b)]))
    elif name == "update empty":
        d.update({})
    elif name == "update kw":
        d.update(z=a)

def play(pairs, ops, keys):
    d = MultiDict(pairs)
    out = []
    for name, key, a, b in ops:
        try:
            r = op(d, name, key, a, b)
        except KeyError:
            r = KeyError
        out.append(r)
    return out, look(d, keys)

def apart(pairs, name, key, a, b, keys):
    d = MultiDict(pairs)
    other = MultiDict(d)
    third = ImmutableMultiDict(d)
    mine = d.multi_items()
    mine.append(("x", a))
    d.getlist(key).append(a)
    values = [a, b]
    d.setlist("w", values)
    values.append(a)
    first = look(d, keys)
    op(other, name, key, a, b)
    second = look(d, keys)
    return first, second, look(third, keys), pairs
'''
Q = "starlette.datastructures.MultiDict"
KEYS = ["a", "b", "z", "w", "x"]
LISTS = [[], [("a", 1)], [("a", 1), ("a", 2)], [("a", 1), ("b", 2), ("a", 3)], [("b", 1), ("a", 2), ("b", 3), ("a", 4)]]
OPS = ["set", "del", "pop", "pop default", "popitem", "poplist", "clear", "setdefault", "setlist", "setlist empty", "append", "update", "update pairs", "update multi", "update empty", "update kw"]
NOKEY = {"popitem", "clear", "update empty", "update kw"}
ERR = object()


def val(i):
    return S(f"v{i}")


def last(items, key):
    vs = [v for k, v in items if k == key]
    return vs[-1] if vs else None


def drop(items, key):
    return [(k, v) for k, v in items if k != key]


def ref(items, name, key, a, b):
    """[(result, items)] the reference allows; result None = None expected"""
    has = any(k == key for k, _ in items)
    if name == "set":
        return [(NONE, drop(items, key) + [(key, a)])]
    if name == "del":
        return [(NONE, drop(items, key))] if has else [(ERR, items)]
    if name in ("pop", "pop default"):
        return [(last(items, key) if has else a if name == "pop default" else NONE, drop(items, key))]
    if name == "popitem":
        ks = {k for k, _ in items}
        return [((C(k), last(items, k)), drop(items, k)) for k in sorted(ks)] or [(ERR, items)]
    if name == "poplist":
        return [([v for k, v in items if k == key], drop(items, key))]
    if name == "clear":
        return [(NONE, [])]
    if name == "setdefault":
        return [(last(items, key), items)] if has else [(a, items + [(key, a)])]
    if name == "setlist":
        return [(NONE, drop(items, key) + [(key, a), (key, b)])]
    if name == "setlist empty":
        return [(NONE, drop(items, key))]
    if name == "append":
        return [(NONE, items + [(key, a)])]
    if name == "update":
        return [(NONE, drop(items, key) + [(key, a)])]
    if name == "update pairs":
        return [(NONE, drop(items, key) + [(key, a), (key, b)])]
    if name == "update multi":
        return [(NONE, drop(drop(items, key), "z") + [(key, a), ("z", b), (key, b)])]
    if name == "update kw":
        return [(NONE, drop(items, "z") + [("z", a)])]
    return [(NONE, items)]


def run(ctx):
    ctx.rule("construct", "constructed from pairs, a mapping, another multi-dict, an iterator, keywords or a query string, it holds exactly those pairs in order")
    ctx.rule("observe", "d[k] and get give the last value of k, getlist all of them in order, multi_items all pairs; in, len, iteration, keys, values and items agree with them")
    ctx.rule("operate", "every operation has exactly its documented effect on the pairs and on all observations, and gives its documented result")
    ctx.rule("apart", "copies, returned lists and lists given as arguments are independent of the multi-dict")
    ctx.rule("immutable", "ImmutableMultiDict, QueryParams, FormData and Headers offer no operation that changes them")
    ctx.client(CLIENT30)
    for cls in ("multi", "immutable", "query", "form"):
        for form in ("none", "pairs", "dict", "multidict", "iter"):
            for items in LISTS:
                if form == "none" and items or form == "dict" and len(dict(items)) < len(items):
                    continue
                for kw in ({}, {"z": 9}, {"a": 9}):
                    construct(ctx, cls, form, items, kw)
    for text, items in (("", []), ("a=1", [("a", "1")]), ("a=1&b=2&a=3", [("a", "1"), ("b", "2"), ("a", "3")]), ("a=&b", [("a", ""), ("b", "")]), ("a=x+y&a=%C3%A9", [("a", "x y"), ("a", "é")])):
        for kind in (str, bytes):
            query(ctx, text if kind is str else text.encode(), items)
    query(ctx, [("1", 2), (1, 3), ("1", 4)], [("1", "2"), ("1", "3"), ("1", "4")], ["1"])
    query(ctx, {1: None, "a": 2.5}, [("1", "None"), ("a", "2.5")], ["1", "a"])
    singles = [(o, k) for o in OPS for k in (("a", "b", "z") if o not in NOKEY else ("a",))]
    for items in LISTS:
        for o in singles:
            play(ctx, items, [o])
    for o in product(singles, singles):
        play(ctx, LISTS[4], o)
    for o in product([("append", "a"), ("update multi", "a"), ("set", "a"), ("setlist", "a"), ("setdefault", "a")], singles, singles):
        if ctx.tier != "quick" or o[1][1] == "a" and o[2][1] == "a":
            play(ctx, [], o)
    for items in LISTS:
        for o in singles:
            if o[0] in ("del", "popitem") and not any(k == o[1] for k, _ in items):
                continue
            apart(ctx, items, *o)
    immutable(ctx)
    ctx.need("construct", 60)
    ctx.need("operate", 800)
    ctx.need("apart", 100)
    ctx.need("immutable", 3)


def start(ctx):
    eng = ctx.engine(MwEnv())
    eng.max_steps = 40_000
    return eng, eng.start_state()


def call(ctx, eng, st, name, args):
    fn = eng.force(st, eng.p.lookup_global(eng.p.client, name))
    return list(eng.run_call(st, fn, args))


def pairs(eng, st, items):
    return eng.new_list(st, "pairs", [Tup([C(k), v]) for k, v in items])


def seq(s, v):
    """elements of a list or tuple value, None if unknown"""
    if v.tag == "tup":
        return list(v.a)
    if v.tag == "ref" and s.heap[v].kind == "list" and not any(x.tag == "rest" for x in s.heap[v].items):
        return list(s.heap[v].items)
    if is_c(v) and isinstance(cval(v), tuple):
        return [C(x) for x in cval(v)]
    return None


def two(s, v):
    xs = seq(s, v)
    return None if xs is None else [tuple(seq(s, x) or [x]) for x in xs]


def observe(s, view, items, keys, ordered=True):
    """None or what is wrong with the observations `view` of a multi-dict that holds `items`"""
    xs = seq(s, view)
    if xs is None or len(xs) != 11:
        return "cannot be observed"
    multi, got, inside, lists, gets, defaults, n, it, ks, vs, its = xs
    want = [(C(k), v) for k, v in items]
    if two(s, multi) != want:
        return f"multi_items is {text(s, multi)}, expected {[(k, show(v)) for k, v in items]}"
    names = list(dict.fromkeys(k for k, _ in items))
    for i, k in enumerate(keys):
        w = last(items, k)
        g = seq(s, got)
        if g[2 * i] is not B(w is None) or w is not None and g[2 * i + 1] is not w:
            return f"[{k!r}] is {show(g[2 * i + 1])}, expected {show(w) if w is not None else 'KeyError'}"
        if seq(s, inside)[i] is not B(w is not None):
            return f"{k!r} in it is {show(seq(s, inside)[i])}"
        if (seq(s, seq(s, lists)[i]) or []) != [v for kk, v in items if kk == k]:
            return f"getlist({k!r}) is {text(s, seq(s, lists)[i])}"
        if seq(s, gets)[i] is not (w if w is not None else NONE):
            return f"get({k!r}) is {show(seq(s, gets)[i])}"
        if seq(s, defaults)[i] is not (w if w is not None else C("dflt")):
            return f"get({k!r}, default) is {show(seq(s, defaults)[i])}"
    if n is not C(len(names)):
        return f"len is {show(n)}, expected {len(names)}"
    for what, x in (("iteration", it), ("keys", ks)):
        l = seq(s, x)
        if l is None or len(l) != len(names) or set(l) != {C(k) for k in names}:
            return f"{what} gives {text(s, x)}, expected {names}"
    l = seq(s, vs)
    if l is None or sorted(map(show, l)) != sorted(show(last(items, k)) for k in names):
        return f"values gives {text(s, vs)}"
    l = two(s, its)
    if l is None or len(l) != len(names) or set(l) != {(C(k), last(items, k)) for k in names}:
        return f"items gives {text(s, its)}"
    return None


def text(s, v):
    xs = seq(s, v)
    return show(v) if xs is None else [text(s, x) if seq(s, x) is not None else show(x) for x in xs]


def construct(ctx, cls, form, items, kw):
    eng, st = start(ctx)
    conv = cls == "query"
    vals = [(k, val(i)) for k, i in items]
    kws = [(k, val(i)) for k, i in kw.items()]
    for _, v in vals + kws:
        st.facts[v] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
    p = pairs(eng, st, vals) if form != "dict" else eng.new_dict(st, "pairs", {C(k): v for k, v in vals}, None)
    k = eng.new_dict(st, "kw", {C(k): v for k, v in kws}, None)
    what = f"{cls} from {form} of {[k for k, _ in items]} and keywords {list(kw)}"
    for kk, s, d in call(ctx, eng, st, "build", [C(cls), C(form), p, k]):
        if kk != "ok":
            eng.report("construct", Q + ".__init__", s, f"{what} raises {show(d)}")
            continue
        for k2, s2, v in call(ctx, eng, s, "look", [d, Tup([C(x) for x in KEYS])]):
            ctx.oblige("construct")
            bad = f"raises {show(v)}" if k2 != "ok" else observe(s2, v, vals + kws, KEYS)
            if bad:
                eng.report("construct", Q + ".__init__", s2, f"{what}: {bad}")


def lit(eng, st, x):
    if isinstance(x, list):
        return eng.new_list(st, "lit", [lit(eng, st, y) for y in x])
    if isinstance(x, dict):
        return eng.new_dict(st, "lit", {C(k): lit(eng, st, v) for k, v in x.items()}, None)
    if isinstance(x, tuple):
        return Tup([lit(eng, st, y) for y in x])
    return C(x)


def query(ctx, source, items, keys=("a", "b")):
    eng, st = start(ctx)
    k = eng.new_dict(st, "kw", {}, None)
    for kk, s, d in call(ctx, eng, st, "build", [C("query"), C("as it is"), lit(eng, st, source), k]):
        if kk != "ok":
            eng.report("construct", "starlette.datastructures.QueryParams.__init__", s, f"QueryParams({source!r}) raises {show(d)}")
            continue
        for k2, s2, v in call(ctx, eng, s, "look", [d, Tup([C(x) for x in keys])]):
            ctx.oblige("construct")
            bad = f"raises {show(v)}" if k2 != "ok" else observe(s2, v, [(k, C(v)) for k, v in items], keys)
            if bad:
                eng.report("construct", "starlette.datastructures.QueryParams.__init__", s2, f"QueryParams({source!r}): {bad}")


def same(s, got, want):
    if want is ERR:
        return got is Ext("builtins.KeyError")
    if isinstance(want, (list, tuple)):
        return seq(s, got) == list(want)
    return got is want


def play(ctx, items, ops):
    eng, st = start(ctx)
    vals = [(k, val(i)) for k, i in items]
    rs = [([], vals)]
    args = []
    for i, (name, key) in enumerate(ops):
        a, b = S(f"a{i}"), S(f"b{i}")
        args.append(Tup([C(name), C(key), a, b]))
        rs = [(out + [r], it) for out, cur in rs for r, it in ref(cur, name, key, a, b)]
    what = f"{', '.join(f'{n}({k})' for n, k in ops)} on {[k for k, _ in items]}"
    p = pairs(eng, st, vals)
    before = st.heap[p].items
    try:
        outs = call(ctx, eng, st, "play", [p, Tup(args), Tup([C(k) for k in KEYS[:3]])])
    except Cut as ex:
        return ctx.undecided(f"{what}: {ex}")
    for k, s, v in outs:
        ctx.oblige("operate")
        rep = lambda t: eng.report("operate", f"{Q}.{METHOD[ops[-1][0]]}", s, f"{what}: {t}")
        if k != "ok":
            rep(f"raises {show(v)}")
            continue
        if s.heap[p].items != before:
            eng.report("apart", Q, s, f"{what}: the list it was made from is changed")
        out, view = seq(s, v)
        out = seq(s, out)
        bads = []
        for want, it in rs:
            bad = next((f"{ops[i][0]}({ops[i][1]}) gives {text(s, g)}" for i, (g, w) in enumerate(zip(out, want)) if not same(s, g, w)), None)
            bads.append(bad or observe(s, view, it, KEYS[:3]))
            if bads[-1] is None:
                break
        if bads[-1] is not None:
            rep(bads[0])


METHOD = {"set": "__setitem__", "del": "__delitem__", "pop": "pop", "pop default": "pop", "popitem": "popitem", "poplist": "poplist", "clear": "clear", "setdefault": "setdefault", "setlist": "setlist", "setlist empty": "setlist", "append": "append", "update": "update", "update pairs": "update", "update multi": "update", "update empty": "update", "update kw": "update"}


def apart(ctx, items, name, key):
    eng, st = start(ctx)
    vals = [(k, val(i)) for k, i in items]
    p = pairs(eng, st, vals)
    before = st.heap[p].items
    a, b = S("a0"), S("b0")
    now = vals + [("w", a), ("w", b)]
    for k, s, v in call(ctx, eng, st, "apart", [p, C(name), C(key), a, b, Tup([C(k) for k in KEYS])]):
        ctx.oblige("apart")
        rep = lambda t: eng.report("apart", Q, s, f"{name}({key}) on a copy of {[k for k, _ in items]}: {t}")
        if k != "ok":
            if not (name == "popitem" and not items):
                rep(f"raises {show(v)}")
            continue
        first, second, third, _ = seq(s, v)
        bad = observe(s, first, now, KEYS)
        if bad:
            rep(f"changed through a list that was given or returned: {bad}")
            continue
        bad = observe(s, second, now, KEYS)
        if bad:
            rep(f"the original changes with the copy: {bad}")
        bad = observe(s, third, vals, KEYS)
        if bad:
            rep(f"another copy changes: {bad}")
        if s.heap[p].items != before:
            rep("the list it was made from is changed")


MUTATORS = ("__setitem__", "__delitem__", "__ior__", "append", "clear", "pop", "popitem", "poplist", "setdefault", "setlist", "update", "add", "remove", "extend", "insert")


def immutable(ctx):
    mod = ctx.p.modules["starlette.datastructures"]
    for name in ("ImmutableMultiDict", "QueryParams", "FormData", "Headers"):
        d = mod.defs.get(name)
        if d is None or d[0] != "cls":
            continue
        ctx.oblige("immutable")
        for m in MUTATORS:
            if d[1].find(m) is not None or ctx.p.mixin(d[1], m) is not None:
                ctx.report("immutable", f"starlette.datastructures.{name}.{m}", f"{name} can be changed with {m}")
