"""Summaries of the Python builtins and standard-library functions the repository calls, and of builtin containers."""
from __future__ import annotations

import ast
import importlib

from . import strs
from .interp import *
from .interp import _DUCK, _RAISES, _flat
from .program import AnchorError
from .values import *


def install(eng):
    eng.ext_models = dict(EXT)
    eng.tm_models = dict(TM)


def ok(st, v):
    return [("ok", st, v)]


# ------------------------------------------------------------------ builtins
def m_isinstance(e, st, a, kw, n):
    v, c = a
    v = e.known(st, v)
    cl = list(c.a) if c.tag == "tup" else [c]
    names = []
    for x in cl:
        if x.tag == "cls":
            names.append(x.a[0].qual)
        elif x.tag == "ext":
            names.append(x.a[0])
        elif x.tag == "t" and x.a[0] == "bin":   # int | str
            for y in subterms(x):
                if y.tag == "ext":
                    names.append(y.a[0])
                elif y.tag == "cls":
                    names.append(y.a[0].qual)
        else:
            return ok(st, T("isinstance", v, show(x)))
    t = mkor([_isa(e, st, v, q) for q in names])
    return ok(st, t)


def _isa(e, st, v, q):
    r = e.isa_truth(st, v, q)
    if r is not None:
        return B(r)
    return T("isinstance", v, q)


def is_exc(e, st, v, q):
    """is the exception of class q or below"""
    if v.tag == "ref" and st.heap[v].kind == "inst":
        c = st.heap[v].cls
        return q in c.mro_names() if isinstance(c, ClassInfo) else c.a[0] == q
    return is_t(v, "exc") and v.a[1] == q


def m_delattr(e, st, a, kw, n):
    if is_c(a[1]):
        return e.delattr(st, a[0], cval(a[1]), n)
    return ok(st, NONE)


def m_hasattr(e, st, a, kw, n):
    o, nm = a
    if o.tag == "ref" and is_c(nm):
        ob = st.heap[o]
        name = cval(nm)
        if ob.kind in ("dict", "list", "set"):
            return ok(st, B(hasattr({"dict": dict, "list": list, "set": set}[ob.kind], name)))
        if ob.kind == "inst" and isinstance(ob.cls, ClassInfo):
            if e.p.mixin(ob.cls, name) is not None:
                return ok(st, TRUE)
            if name in ob.d and ob.d[name] is not ABSENT:
                return ok(st, TRUE)
            if ob.cls.find(name) or e.cls_attrs and e.cls_attr(st, ob.cls, name) is not None:
                return ok(st, TRUE)
            if ob.base is not None:
                return ok(st, T("hasattr", o, name))
            g = ob.cls.find("__getattr__")
            if g is None:
                return ok(st, FALSE)
            return [(k, s, TRUE) if k == "ok" else ("ok", s, FALSE) if k == "raise" and is_exc(e, s, v, "builtins.AttributeError") else (k, s, v) for k, s, v in e.call(st, Bound(o, Fn(g[2], None)), [nm], {}, n)]
    if is_c(nm) and cval(nm) in ("__name__", "__qualname__") and o.tag in ("fn", "cls", "part", "bound"):
        return ok(st, B(o.tag != "part"))
    if is_c(nm) and isinstance(cval(nm), str) and o.tag in ("fn", "bound"):
        f = o if o.tag == "fn" else o.a[1]
        ov = st.heap.get(mk("attrs", (f,)))
        if ov is None or cval(nm) not in ov.d:
            return ok(st, B(hasattr(m_hasattr, cval(nm)) or o.tag == "bound" and cval(nm) in ("__self__", "__func__")))
    if is_c(nm) and o.tag == "cls":
        if o.a[0].find(cval(nm)) or cval(nm) in dir(type):
            return ok(st, TRUE)
        if all(isinstance(c, ClassInfo) or c.a[0] == "builtins.object" for c in o.a[0].mro()):
            return ok(st, FALSE)
    if is_c(nm) and isinstance(cval(nm), str):
        if o.tag == "gen":
            return ok(st, B(cval(nm) in (("__aiter__", "__anext__", "asend", "athrow", "aclose") if o.a[0] == "async" else ("__iter__", "__next__", "send", "throw", "close"))))
        if o.tag == "tup" or is_c(o):
            return ok(st, B(hasattr(() if o.tag == "tup" else cval(o), cval(nm))))
    if is_c(nm):
        return ok(st, T("hasattr", o, cval(nm)))
    return ok(st, T("hasattr", o, nm))


def m_vars(e, st, a, kw, n):
    if len(a) == 1 and a[0].tag == "ref" and st.heap[a[0]].kind == "inst" and st.heap[a[0]].base is None:
        return ok(st, e.new_dict(st, n, {C(k): v for k, v in st.heap[a[0]].d.items() if isinstance(k, str) and v is not ABSENT}))
    return None


def m_getattr(e, st, a, kw, n):
    o, nm = a[0], a[1]
    if not is_c(nm):
        return ok(st, T("attrdyn", *a))
    name = cval(nm)
    if len(a) == 3:
        if o.tag == "ref":
            ob = st.heap[o]
            if ob.kind == "inst" and isinstance(ob.cls, ClassInfo):
                if name not in ob.d and not ob.cls.find(name) and ob.base is None and not (e.cls_attrs and e.cls_attr(st, ob.cls, name) is not None):
                    g = ob.cls.find("__getattr__")
                    if g is not None:
                        return [("ok", s, a[2]) if k == "raise" and is_exc(e, s, v, "builtins.AttributeError") else (k, s, v) for k, s, v in e.call(st, Bound(o, Fn(g[2], None)), [nm], {}, n)]
                    return ok(st, a[2])
                if name in ob.d and ob.d[name] is ABSENT:
                    return ok(st, a[2])
                return e.getattr(st, o, name, n)
        res = []
        (_, st, has), = m_hasattr(e, st, [o, nm], {}, n)
        for b, s2 in e.branch(st, has):
            if b:
                res.extend(e.getattr(s2, o, name, n))
            else:
                res.append(("ok", s2, a[2]))
        return res
    return e.getattr(st, o, name, n)


def m_setattr(e, st, a, kw, n):
    if is_c(a[1]):
        return e.setattr(st, a[0], cval(a[1]), a[2], n)
    return ok(st, NONE)


def m_len(e, st, a, kw, n):
    v = strs.lens(e, st, a[0])
    if v is not None:
        return ok(st, v)
    v = e.known(st, a[0])
    if is_c(v) and isinstance(cval(v), (str, bytes)):
        return ok(st, C(len(cval(v))))
    if v.tag == "tup":
        return ok(st, C(len(v.a)))
    if v.tag == "ref":
        o = st.heap[v]
        if o.kind in ("list", "set") and not any(x.tag == "rest" for x in o.items):
            return ok(st, C(len(o.items)))
        if o.kind in ("list", "set"):
            kn = [x for x in o.items if x.tag != "rest"]
            rs = [x for x in o.items if x.tag == "rest"]
            terms = [(1, C(len(kn)))]
            for r in rs:
                terms.append((1, T("len", r.a[0] if r.a[1] is None or r.a[1].tag not in ("tmplif", "tmplalt") else T("listval", r))))
            return ok(st, lin(e, st, terms))
        if o.kind == "dict" and o.base is None:
            return ok(st, C(sum(1 for x in o.d.values() if x is not ABSENT)))
        if o.kind == "inst" and isinstance(o.cls, ClassInfo):
            r = o.cls.find("__len__")
            if r:
                return e.call(st, Bound(v, Fn(r[2], None)), [], {}, n)
    if is_t(v, "concat"):
        parts = []
        for p in v.a[1:]:
            if is_c(p):
                parts.append((1, C(len(cval(p)))))
            else:
                parts.append((1, lenof(e, st, p)))
        return ok(st, lin(e, st, parts))
    return ok(st, lenof(e, st, v))


def lenof(e, st, v):
    # latin-1 / ascii encoding preserves length
    if is_t(v, "m") and v.a[1] == "encode" and len(v.a) > 3 and v.a[3] in (C("latin-1"), C("ascii")):
        x = v.a[2]
        if is_t(x, "concat"):
            return lin(e, st, [(1, C(len(cval(p))) if is_c(p) else lenof(e, st, p)) for p in x.a[1:]])
        return T("len", x)
    if is_t(v, "str") and e.type_of(st, v.a[1]) == "builtins.str":
        return T("len", v.a[1])
    return T("len", v)


def m_str(e, st, a, kw, n):
    if not a:
        return ok(st, C(""))
    v = e.known(st, a[0])
    if len(a) > 1 or kw:
        return ok(st, T("call", "builtins.str", *a))
    if is_c(v) and not isinstance(cval(v), bytes):
        return ok(st, C(str(cval(v))))
    if e.type_of(st, v) == "builtins.str":
        return ok(st, v)
    if e.text_of(st, v) is not None and not st.heap[v].cls.find("__str__"):
        return m_str(e, st, [e.text_of(st, v)], kw, n)
    if v.tag == "ref" and st.heap[v].kind == "inst" and isinstance(st.heap[v].cls, ClassInfo):
        m = e.text_method(st, v, "s")
        if m is not None:
            return e.call(st, m, [], {}, n)
    if "builtins.str" in e.fact(st, v).isa:
        return ok(st, v)
    return ok(st, T("str", v))


def m_repr(e, st, a, kw, n):
    if len(a) == 1 and (is_c(a[0]) or e.text_method(st, a[0], "r")):
        return e.render(st, [(a[0], "r", "")], n)
    return ok(st, T("call", "builtins.repr", *a))


def m_int(e, st, a, kw, n):
    v = e.known(st, a[0]) if a else C(0)
    if is_c(v) and len(a) == 1:
        try:
            return ok(st, C(int(cval(v))))
        except Exception:
            return [("raise", st, e.new_inst(st, n, Ext("builtins.ValueError")))]
    if len(a) == 1 and e.isa_truth(st, v, "builtins.int") is True:
        return ok(st, v)
    t = T("call", "builtins.int", *a)
    res = e.raises(st, ("builtins.ValueError",), n, t)
    return ok(st, t) + res


def m_bool(e, st, a, kw, n):
    if not a:
        return ok(st, FALSE)
    r = e.truth(st, a[0])
    if r is not None:
        return ok(st, B(r))
    if e.is_booly(a[0]):
        return ok(st, a[0])
    if a[0].tag == "ref":
        bs = e.as_bool(st, a[0])
        if bs is not None:
            return [o for s, t in bs for o in m_bool(e, s, [t], {}, n)]
    return ok(st, T("not", T("not", a[0])))


def m_type(e, st, a, kw, n):
    if len(a) == 1:
        v = a[0]
        if v.tag == "ref" and st.heap[v].kind == "inst":
            c = st.heap[v].cls
            return ok(st, Cls(c) if isinstance(c, ClassInfo) else c)
        if is_t(v, "exc") and getattr(e.env, "exact_exc", False):
            try:
                return ok(st, Cls(e.p.cls(v.a[1])))
            except AnchorError:
                return ok(st, Ext(v.a[1]))
        ty = e.type_of(st, v)
        if ty and ty.startswith("builtins."):
            return ok(st, Ext(ty))
        return ok(st, T("typeof", v))
    return None


def mk_listlike(kind):
    def m(e, st, a, kw, n):
        if not a:
            return ok(st, e.alloc(st, n, Obj(kind)) if kind != "tup" else Tup(()))
        v = e.known(st, a[0])
        if v.tag == "gen" and v.a[1] == "ge":
            gnode = v.a[2][0]
            saved = (st.frame, st.frames)
            st.frame = v.a[3]
            outs = e.comp(gnode, st, "set" if kind == "set" else "list", first=v.a[4])
            for o in outs:
                o[1].frame, o[1].frames = saved
            if kind == "tup":
                return e.bind(outs, lambda st, l: ok(st, Tup(st.heap[l].items) if not any(x.tag == "rest" for x in st.heap[l].items) else l))
            return outs
        if is_t(v, "mapf"):
            return map_list(e, st, v, kind, n)
        res = []
        for k, s2, segs in e.segments(st, v, n):
            if k != "ok":
                res.append((k, s2, segs))
                continue
            if any(s[0] == "gen" for s in segs):
                acc = e.alloc(s2, n, Obj("list"))
                fr = s2.heap[s2.frame]
                key = "$acc%d" % e.nid(n)
                s2.heap[s2.frame] = fr.put(key, acc)

                def body(st, x):
                    o = st.heap[acc]
                    st.heap[acc] = o.with_items(o.items + (x,))
                    return [("next", st, None)]
                for o in e.for_over(s2, v, n, body):
                    if o[0] == "next":
                        o[1].heap[o[1].frame] = o[1].heap[o[1].frame].rem(key)
                        res.append(("ok", o[1], acc))
                    else:
                        res.append(o)
                continue
            items = [s[1] if s[0] == "known" else e.rest(s[1], s[2]) for s in segs]
            if kind == "set":
                u = []
                for x in items:
                    if x not in u:
                        u.append(x)
                items = u
            if kind == "tup":
                if any(x.tag == "rest" for x in items):
                    if len(items) == 1 and items[0].a[1] is None:
                        res.append(("ok", s2, T("tuple", items[0].a[0])))
                    else:
                        res.append(("ok", s2, e.alloc(s2, n, Obj("list", items=tuple(items)))))
                else:
                    res.append(("ok", s2, Tup(items)))
            else:
                res.append(("ok", s2, e.alloc(s2, n, Obj(kind, items=tuple(items)))))
        return res
    return m


def map_list(e, st, v, kind, n):
    _, f, it = v.a[0], v.a[1], v.a[2]
    res = []
    for k, s2, segs in e.segments(st, it, n):
        if k != "ok":
            res.append((k, s2, segs))
            continue
        outs = [("ok", s2, [])]
        for sg in segs:
            nx = []
            for o in outs:
                if o[0] != "ok":
                    nx.append(o)
                    continue
                x = sg[1] if sg[0] == "known" else (sg[2] if sg[2] is not None else T("bv", sg[1]))
                for oo in e.call(o[1], f, [x], {}, n):
                    if oo[0] != "ok":
                        nx.append(oo)
                    else:
                        nx.append(("ok", oo[1], o[2] + [oo[2] if sg[0] == "known" else e.rest(sg[1], oo[2])]))
            outs = nx
        for o in outs:
            if o[0] != "ok":
                res.append(o)
                continue
            if kind == "tup" and not any(x.tag == "rest" for x in o[2]):
                res.append(("ok", o[1], Tup(o[2])))
            elif kind == "tup":
                res.append(("ok", o[1], T("tuple", *o[2])))
            else:
                res.append(("ok", o[1], e.alloc(o[1], n, Obj(kind, items=tuple(o[2])))))
    return res


def mapping_pairs(e, st, v, n):
    """[(outcome, state, list of pairs)] of dict(v) for a mapping instance, through its keys() and __getitem__; None when its keys
    are not all known"""
    ci = st.heap[v].cls
    if not isinstance(ci, ClassInfo) or not ci.find("__getitem__"):
        return None
    f = ci.find("keys")
    f = f[2] if f else e.p.mixin(ci, "keys")
    if f is None:
        return None
    probe = e.bind(e.call(st.fork(), Bound(v, Fn(f, None)), [], {}, n), lambda s, ks: mk_listlike("list")(e, s, [ks], {}, n))
    if any(k == "ok" and (ks.tag != "ref" or any(x.tag == "rest" for x in s.heap[ks].items)) for k, s, ks in probe):
        return None

    def items(s, ks):
        outs = [("ok", s, [])]
        for key in s.heap[ks].items:
            nx = []
            for k, s1, got in outs:
                if k != "ok":
                    nx.append((k, s1, got))
                    continue
                nx += [(k2, s2, got + [(key, x)] if k2 == "ok" else x) for k2, s2, x in e.getitem(s1, v, key, n)]
            outs = nx
        return outs
    return e.bind(probe, items)


def m_dict(e, st, a, kw, n):
    d = {}
    base = None
    if a:
        v = e.known(st, a[0])
        if v.tag == "ref" and st.heap[v].kind == "dict":
            o = st.heap[v]
            d, base = dict(o.d), o.base
        elif v.tag == "ref" and st.heap[v].kind == "inst":
            outs = mapping_pairs(e, st, v, n) if "**" not in kw else None
            if outs is not None:
                return e.bind(outs, lambda s, ps: ok(s, e.new_dict(s, n, {**dict(ps), **{C(k): x for k, x in kw.items()}}, None)))
            base = T("dictof", v)
        elif v.tag == "tup" or (v.tag == "ref" and st.heap[v].kind == "list"):
            items = v.a if v.tag == "tup" else st.heap[v].items
            for x in items:
                if x.tag == "tup" and len(x.a) == 2:
                    d[x.a[0]] = x.a[1]
                else:
                    base = T("dictof", v, *items) if base is None else T("dictof", base, v)
        elif v.tag == "gen" and v.a[1] == "ge":
            outs = mk_listlike("list")(e, st, [v], {}, n)
            return e.bind(outs, lambda st, l: m_dict(e, st, [l], kw, n))
        else:
            base = v if v.tag == "t" and v.a[0] not in ("res",) else T("dictof", v)
    for k, v in kw.items():
        if k == "**":
            if v.tag == "ref":
                o = st.heap[v]
                d.update(o.d)
                base = base or o.base
            else:
                base = T("merged", base, v) if base is not None else v
        else:
            d[C(k)] = v
    return ok(st, e.new_dict(st, n, d, base))


def m_anyall(which):
    def m(e, st, a, kw, n):
        v = e.known(st, a[0])
        is_any = which == "any"
        # a quantified atom when the predicate is a single pure term over one unknown segment
        if v.tag == "gen" and v.a[1] == "ge" and len(v.a[2][0].generators) == 1:
            gnode = v.a[2][0]
            t = quant(e, st, v, gnode, is_any)
            if t is not None:
                return ok(st, t)

        def body(st, x):
            out = []
            for b, s2 in e.branch(st, x):
                if b == is_any:
                    out.append(("return", s2, B(is_any)))
                else:
                    out.append(("next", s2, None))
            return out
        res = []
        for k, s2, x in e.for_over(st, v, n, body):
            if k == "next":
                res.append(("ok", s2, B(not is_any)))
            elif k == "return":
                res.append(("ok", s2, x))
            else:
                res.append((k, s2, x))
        return res
    return m


def quant(e, st, gv, gnode, is_any):
    s0 = st.fork()
    s0.frame = gv.a[3]
    try:
        segl = e.segments(s0, gv.a[4], gnode)
    except Cut:
        return None
    if len(segl) != 1 or segl[0][0] != "ok":
        return None
    segs = segl[0][2]
    if not any(s[0] == "rest" for s in segs) or any(s[0] == "gen" for s in segs):
        return None
    ts = []
    saved = e._bindnames(gnode, s0)
    for sg in segs:
        s1 = segl[0][1].fork()
        if sg[0] == "known":
            outs = e.comp_one(gnode, s1, "list", sg[1])
            if len(outs) != 1 or outs[0][0] != "ok" or outs[0][2] is None:
                return None
            t = outs[0][2]
            ts.append(t if is_any else neg(t))
            continue
        src, tm = sg[1], sg[2]
        if tm is not None and tm.tag in ("tmplif", "tmplalt"):
            return None
        bv = T("bv", src)
        before = (dict(s1.facts), {k: o.key() for k, o in s1.heap.items() if o.kind != "frame"})
        outs = e.comp_one(gnode, s1, "list", bv if tm is None else tm)
        alts = []
        for k, s2, v in outs:
            if k != "ok":
                return None
            if any(kk in before[1] and before[1][kk] != o.key() for kk, o in s2.heap.items() if o.kind != "frame"):
                return None
            newf = []
            for t, f in s2.facts.items():
                if before[0].get(t) != f:
                    newf.append((t, f))
            if v is None:
                continue
            conj = []
            for t, f in newf:
                old = before[0].get(t, NOFACT)
                conj.extend(fact_terms(t, f, old))
            val = v if is_any else neg(v)
            r = e.truth(s2, val)
            if r is False:
                continue
            if r is not True:
                conj.append(val)
            alts.append(mkand(conj))
        ts.append(mkexists(src, mkor(alts)))
    return mkor(ts) if is_any else neg(mkor(ts))


def mkexists(src, p):
    if p is FALSE:
        return FALSE
    if is_t(p, "or"):
        return mkor([mkexists(src, x) for x in p.a[1:]])
    return T("exists", src, p)


def neg(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if is_t(t, "not"):
        return t.a[1]
    return T("not", t)


def mkand(ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if is_t(t, "and"):
            out.extend(t.a[1:])
        else:
            out.append(t)
    u = []
    for t in sorted(out, key=repr):
        if t not in u:
            u.append(t)
    if not u:
        return TRUE
    return u[0] if len(u) == 1 else T("and", *u)


def fact_terms(t, f, old=NOFACT):
    out = []
    if f.eq is not None and f.eq is not old.eq:
        out.append(eqt(t, f.eq))
    for x in f.ne - old.ne:
        out.append(T("not", eqt(t, x)))
    if f.tr is not None and f.tr != old.tr:
        out.append(t if f.tr else T("not", t))
    for c in f.isa - old.isa:
        out.append(T("isinstance", t, c))
    for c in f.nota - old.nota:
        out.append(T("not", T("isinstance", t, c)))
    return out


def m_minmax(which):
    def m(e, st, a, kw, n):
        if len(a) >= 2 and not kw:
            a = [e.known(st, x) for x in a]
            if all(is_c(x) for x in a):
                return ok(st, C((min if which == "min" else max)(cval(x) for x in a)))
            return ok(st, T(which, *sorted(a, key=repr)))
        its = const_items(st, e.known(st, a[0])) if len(a) == 1 and not kw else None
        if its:
            try:
                return ok(st, C((min if which == "min" else max)(cval(x) for x in its)))
            except TypeError:
                pass
        return ok(st, T(which, *a))
    return m


def m_sum(e, st, a, kw, n):
    v = a[0]
    if v.tag == "gen" and v.a[1] == "ge":
        outs = mk_listlike("list")(e, st, [v], {}, n)
    else:
        outs = mk_listlike("list")(e, st, [v], {}, n)

    def f(st, l):
        terms = [(1, a[1])] if len(a) > 1 else []
        for x in st.heap[l].items:
            if x.tag == "rest":
                terms.append((1, T("sumof", x.a[0], x.a[1] if x.a[1] is not None else T("bv", x.a[0]))))
            else:
                terms.append((1, x))
        return ok(st, lin(e, st, terms) if terms else C(0))
    return e.bind(outs, f)


def m_reversed(e, st, a, kw, n):
    v = a[0]
    if v.tag == "tup":
        return ok(st, Tup(tuple(reversed(v.a))))
    return ok(st, T("reversed", v))


def const_items(st, v):
    """the elements of a collection of constants, or None"""
    if is_c(v) and isinstance(cval(v), (set, frozenset, tuple, list)):
        return [C(x) for x in cval(v)]
    if v.tag == "tup":
        its = list(v.a)
    elif v.tag == "ref" and v in st.heap and st.heap[v].kind in ("list", "set"):
        its = list(st.heap[v].items)
    else:
        return None
    return its if all(is_c(x) for x in its) else None


def m_sorted(e, st, a, kw, n):
    if a and (is_t(a[0], "mapf") or a[0].tag == "gen"):
        return e.bind(e.call(st, Ext("builtins.list"), [a[0]], {}, n), lambda st, l: m_sorted(e, st, [l] + list(a[1:]), kw, n))
    its = const_items(st, a[0]) if len(a) == 1 else None
    if its is not None and (not kw or set(kw) == {"reverse"} and is_c(kw["reverse"])):
        try:
            r = sorted((cval(x) for x in its), reverse=bool(kw and cval(kw["reverse"])))
            return ok(st, e.new_list(st, n, [C(x) for x in r]))
        except TypeError:
            pass
    v = a[0]
    if set(kw) <= {"reverse"} and (not kw or is_c(kw["reverse"])) and (v.tag == "tup" or v.tag == "ref" and st.heap[v].kind in ("list", "set")):
        vs = [(deep_const(e, st, x), x) for x in (v.a if v.tag == "tup" else st.heap[v].items)]
        if all(d is not None for d, _ in vs):
            try:
                return ok(st, e.new_list(st, n, [x for _, x in sorted(vs, key=lambda p: p[0][0], reverse=bool(kw and cval(kw["reverse"])))]))
            except TypeError:
                pass
    return ok(st, T("sorted", *a))


def deep_const(e, st, v):
    """(value,) of a constant or a tuple of constants, else None"""
    v = e.known(st, v)
    if is_c(v):
        return (cval(v),)
    if v.tag == "tup":
        xs = [deep_const(e, st, x) for x in v.a]
        return (tuple(x[0] for x in xs),) if None not in xs else None
    return None


# pure text functions of the standard library, folded on constants
FOLD_EXT = {f"urllib.parse.{x}" for x in ("parse_qsl", "parse_qs", "urlencode", "quote", "quote_plus", "unquote", "unquote_plus", "urljoin")} | {
    "html.escape", "html.unescape", "base64.b64encode", "base64.b64decode"}


def fold_const(e, st, v):
    """(python value,) of a value that is constant throughout, containers included, else None"""
    v = e.known(st, v)
    if v.tag == "ref":
        o = st.heap[v]
        if o.kind == "list" and not any(x.tag == "rest" for x in o.items):
            xs = [fold_const(e, st, x) for x in o.items]
            return ([x[0] for x in xs],) if None not in xs else None
        if o.kind == "dict" and o.base is None:
            xs = [(fold_const(e, st, k), fold_const(e, st, x)) for k, x in o.d.items() if x is not ABSENT]
            return ({k[0]: x[0] for k, x in xs},) if all(k is not None and x is not None for k, x in xs) else None
        return None
    if v.tag == "tup":
        xs = [fold_const(e, st, x) for x in v.a]
        return (tuple(x[0] for x in xs),) if None not in xs else None
    return (cval(v),) if is_c(v) else None


def unfold(e, st, x, n):
    if isinstance(x, list):
        return e.new_list(st, n, [unfold(e, st, y, n) for y in x])
    if isinstance(x, dict):
        return e.new_dict(st, n, {C(k): unfold(e, st, y, n) for k, y in x.items()}, None)
    if isinstance(x, tuple):
        return Tup([unfold(e, st, y, n) for y in x])
    return C(x)


def fold_ext(e, st, q, args, kw, n):
    xs = [fold_const(e, st, a) for a in args]
    ks = {k: fold_const(e, st, a) for k, a in kw.items()}
    if None in xs or None in ks.values() or not xs:
        return None
    mod, _, name = q.rpartition(".")
    try:
        x = getattr(importlib.import_module(mod), name)(*[x[0] for x in xs], **{k: x[0] for k, x in ks.items()})
    except Exception as ex:
        return [("raise", st, e.new_inst(st, n, Ext("builtins." + type(ex).__name__)))]
    return ok(st, unfold(e, st, x, n))


def m_enumerate(e, st, a, kw, n):
    return ok(st, T("enumerate", a[0]))


def m_map(e, st, a, kw, n):
    return ok(st, T("mapf", *a))


def known_list(e, st, v):
    """(elements,) of a list, tuple, set or dict all of whose elements are there, else None"""
    v = e.known(st, v)
    if v.tag == "tup":
        return (list(v.a),)
    if is_c(v) and isinstance(cval(v), (str, bytes, tuple)):
        return ([C(x) for x in cval(v)],)
    if v.tag == "ref" and v in st.heap:
        o = st.heap[v]
        if o.kind in ("list", "set") and not any(x.tag == "rest" for x in o.items):
            return (list(o.items),)
        if o.kind == "dict" and o.base is None:
            return ([k for k, x in o.d.items() if x is not ABSENT],)
    return None


def listed(f):
    """a function of iterables that are consumed completely: map objects over known elements are made lists first"""
    def m(e, st, a, kw, n):
        for i, x in enumerate(a):
            if is_t(x, "mapf") and len(x.a) == 3 and known_list(e, st, x.a[2]) is not None:
                return e.bind(map_list(e, st, x, "list", n), lambda s, l: m(e, s, list(a[:i]) + [l] + list(a[i + 1:]), kw, n))
        return f(e, st, a, kw, n)
    return m


def pure_listed(f):
    """the same where it may stop early: only for functions of the standard library"""
    g = listed(f)

    def m(e, st, a, kw, n):
        return (g if a and is_t(a[0], "mapf") and a[0].a[1].tag == "ext" else f)(e, st, a, kw, n)
    return m


def m_filter(e, st, a, kw, n):
    its = known_list(e, st, a[1]) if len(a) == 2 else None
    if its is None:
        return None
    outs = [("ok", st, [])]
    for x in its[0]:
        nx = []
        for k, s, got in outs:
            if k != "ok":
                nx.append((k, s, got))
                continue
            for o in ([("ok", s, x)] if a[0] is NONE else e.call(s, a[0], [x], {}, n)):
                if o[0] != "ok":
                    nx.append(o)
                    continue
                for b, s2 in e.branch(o[1], o[2]):
                    nx.append(("ok", s2, got + [x] if b else got))
        outs = nx
    return [("ok", s, e.new_list(s, n, got)) if k == "ok" else (k, s, got) for k, s, got in outs]


def m_zip(e, st, a, kw, n):
    ls = [known_list(e, st, x) for x in a]
    if a and not kw and all(x is not None for x in ls):
        return ok(st, e.new_list(st, n, [Tup(z) for z in zip(*[x[0] for x in ls])]))
    if all(x.tag == "tup" for x in a):
        return ok(st, Tup([Tup(z) for z in zip(*[x.a for x in a])]))
    return ok(st, T("zip", *a))


def m_iter(e, st, a, kw, n):
    """an iterator over elements that are all known is the list of those left"""
    ls = known_list(e, st, a[0]) if len(a) == 1 else None
    if ls is not None and not (a[0].tag == "ref" and "$iter" in st.heap[a[0]].d):
        it = e.new_list(st, n, ls[0])
        st.heap[it] = st.heap[it].put("$iter", TRUE)
        return ok(st, it)
    return ok(st, a[0])


def m_next(e, st, a, kw, n):
    v = a[0]
    default = a[1] if len(a) > 1 else None
    if v.tag == "ref" and st.heap[v].kind == "inst" and isinstance(st.heap[v].cls, ClassInfo):
        nx = st.heap[v].cls.find("__next__")
        if nx:
            return [("ok", s, default) if k == "raise" and default is not None and is_exc(e, s, x, "builtins.StopIteration") else (k, s, x)
                    for k, s, x in e.call(st, Bound(v, Fn(nx[2], None)), [], {}, n)]
    if v.tag == "ref" and v in st.heap and st.heap[v].kind == "list" and "$iter" in st.heap[v].d:
        items = st.heap[v].items
        if not items:
            return ok(st, default) if default is not None else [("raise", st, e.new_inst(st, n, Ext("builtins.StopIteration")))]
        if not any(x.tag == "rest" for x in items):
            st.heap[v] = st.heap[v].__class__("list", d=st.heap[v].d, items=tuple(items[1:]))
            return ok(st, items[0])
    return first_of(e, st, v, n, default, False)


def first_of(e, st, v, n, default, is_async):
    def body(st, x):
        return [("return", st, x)]
    res = []
    for k, s2, x in e.for_over(st, v, n, body, is_async):
        if k == "next":
            if default is not None:
                res.append(("ok", s2, default))
            else:
                res.append(("raise", s2, e.new_inst(s2, n, Ext("builtins.StopAsyncIteration" if is_async else "builtins.StopIteration"))))
        elif k == "return":
            res.append(("ok", s2, x))
        else:
            res.append((k, s2, x))
    return res


def m_callable(e, st, a, kw, n):
    v = a[0]
    if v.tag in ("fn", "bound", "cls", "part", "cmfn", "bm"):
        return ok(st, TRUE)
    if is_c(v):
        return ok(st, FALSE)
    if v.tag == "ref" and st.heap[v].kind in ("list", "dict", "set"):
        return ok(st, FALSE)
    if v.tag == "ref" and st.heap[v].kind == "inst" and isinstance(st.heap[v].cls, ClassInfo):
        return ok(st, B(st.heap[v].cls.find("__call__") is not None))
    return ok(st, T("callable", v))


def m_partial(e, st, a, kw, n):
    f = a[0]
    if f.tag == "part":
        kk = dict(f.a[2])
        kk.update(kw)
        return ok(st, mk("part", (f.a[0], f.a[1] + tuple(a[1:]), tuple(sorted(kk.items())))))
    return ok(st, mk("part", (f, tuple(a[1:]), tuple(sorted(kw.items())))))


def m_identity1(i):
    def m(e, st, a, kw, n):
        return ok(st, a[i])
    return m


def m_none(e, st, a, kw, n):
    return ok(st, NONE)


def m_wraps(e, st, a, kw, n):
    return ok(st, T("wraps", a[0]))


def m_urlencode(e, st, a, kw, n):
    """the text depends on the contents of the mapping or pair list"""
    r = fold_ext(e, st, "urllib.parse.urlencode", a, kw, n)
    if r is not None:
        return r
    v = a[0]
    if v.tag == "ref":
        o = st.heap[v]
        if o.kind == "dict" and o.base is None:
            v = Tup(tuple(Tup((k, x)) for k, x in o.d.items() if x is not ABSENT))
        elif o.kind == "list":
            v = Tup(tuple(o.items))
    return ok(st, T("call", "urllib.parse.urlencode", v))


def m_range(e, st, a, kw, n):
    if all(is_c(x) for x in a):
        r = range(*[cval(x) for x in a])
        if len(r) <= 16:
            return ok(st, Tup([C(i) for i in r]))
    return ok(st, T("range", *a))


def m_issubclass(e, st, a, kw, n):
    if a[0].tag == "cls" and a[1].tag in ("cls", "ext"):
        q = a[1].a[0].qual if a[1].tag == "cls" else a[1].a[0]
        return ok(st, B(e.p.issub(a[0].a[0].qual, q)))
    if a[0].tag == "ext" and a[1].tag == "ext" and all(x.a[0].startswith("builtins.") for x in a):
        import builtins
        x, y = (getattr(builtins, v.a[0][9:], None) for v in a)
        if isinstance(x, type) and isinstance(y, type):
            return ok(st, B(issubclass(x, y)))
    return ok(st, T("issubclass", *a))


def m_object(e, st, a, kw, n):
    return ok(st, e.new_inst(st, n, Ext("builtins.object")))


def m_httpstatus(e, st, a, kw, n):
    v = e.known(st, a[0]) if a else NONE
    if len(a) == 1 and not kw and is_c(v):
        import http
        try:
            http.HTTPStatus(cval(v))
        except ValueError:
            return [("raise", st, e.new_inst(st, n, Ext("builtins.ValueError")))]
        return ok(st, T("httpstatus", v))
    return e.unknown_call(st, Ext("http.HTTPStatus"), a, kw, n)


def m_iscoro(e, st, a, kw, n):
    v = a[0]
    if v.tag == "bound":
        v = v.a[1]
    if v.tag == "fn":
        return ok(st, B(v.a[0].is_async and not v.a[0].is_gen))
    if v.tag in ("cls",):
        return ok(st, FALSE)
    if v.tag == "part":
        return m_iscoro(e, st, [v.a[0]], kw, n)
    if v.tag == "ref":
        return ok(st, FALSE)
    if is_t(v, "attr") and v.a[2] == "__call__" and v.a[1].tag in ("fn", "bound", "part"):
        return ok(st, FALSE)
    return ok(st, T("iscoroutinefunction", v))


def m_inspect(q):
    def m(e, st, a, kw, n):
        v = a[0]
        if v.tag not in ("fn", "bound", "cls", "part", "ref", "cmfn"):
            return None
        f = v.a[1] if v.tag == "bound" else v
        if q == "isfunction":
            r = v.tag == "fn"
        elif q == "ismethod":
            r = v.tag == "bound"
        elif q == "isroutine":
            r = v.tag in ("fn", "bound")
        elif q == "isclass":
            r = v.tag == "cls"
        elif q == "isgeneratorfunction":
            while f.tag == "part":
                f = f.a[0]
            r = f.tag == "fn" and f.a[0].is_gen and not f.a[0].is_async
        else:
            while f.tag == "part":
                f = f.a[0]
            r = f.tag == "fn" and f.a[0].is_gen and f.a[0].is_async
        return ok(st, B(r))
    return m


def m_setfn(e, st, a, kw, n):
    return mk_listlike("set")(e, st, a, kw, n)


def m_frozenset(e, st, a, kw, n):
    return mk_listlike("set")(e, st, a, kw, n)


def m_hash(e, st, a, kw, n):
    return ok(st, T("hash", *a))


def m_bytes(e, st, a, kw, n):
    if not a:
        return ok(st, C(b""))
    v = e.known(st, a[0])
    if len(a) == 1 and e.type_of(st, v) == "builtins.bytes":
        return ok(st, v)
    return None


def m_contextmanager(e, st, a, kw, n):
    return ok(st, mk("cmfn", (a[0],)) if a[0].tag in ("fn", "bound") else T("call", "contextlib.contextmanager", a[0]))


def m_exc_text(e, st, a, kw, n):
    return ok(st, T("call", "traceback.format_exc"))


def copied(e, st, v, n, deep, memo):
    """a (deep) copy of a value whose structure is known, None if it is not"""
    if is_c(v) or v.tag in ("fn", "cls", "ext", "enum", "mod"):
        return v
    if v.tag == "tup":
        if not deep:
            return v
        xs = [copied(e, st, x, n, deep, memo) for x in v.a]
        return None if any(x is None for x in xs) else Tup(xs)
    if v.tag != "ref":
        return v if v.tag == "t" and e.type_of(st, v) in ("str", "bytes", "int", "bool", "float") else None
    if v in memo:
        return memo[v]
    o = st.heap[v]
    if o.kind == "inst" and not (isinstance(o.cls, ClassInfo) and all(isinstance(c, ClassInfo) or c.a[0] == "builtins.object" for c in o.cls.mro())
                                 and not any(o.cls.find(m) for m in ("__copy__", "__deepcopy__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__slots__"))):
        return None
    if o.kind not in ("dict", "list", "set", "inst") or o.base is not None or any(x.tag in ("rest", "maybe") for x in o.items):
        return None
    r = e.alloc(st, n, Obj(o.kind, o.cls, o.d, o.items, o.base))
    memo[v] = r
    if deep:
        d, items = {}, []
        for k, x in o.d.items():
            x2 = x if x is ABSENT else copied(e, st, x, n, deep, memo)
            if x2 is None:
                return None
            d[k] = x2
        for x in o.items:
            x2 = copied(e, st, x, n, deep, memo)
            if x2 is None:
                return None
            items.append(x2)
        st.heap[r] = Obj(o.kind, o.cls, d, tuple(items), o.base)
    return r


def mk_copy(deep):
    def m(e, st, a, kw, n):
        if len(a) != 1 or kw:
            return None
        s2 = st.fork()
        r = copied(e, s2, a[0], n, deep, {})
        return None if r is None else ok(s2, r)
    return m


def m_opertor_methodcaller(e, st, a, kw, n):
    return None


EXT = {
    "copy.copy": mk_copy(False),
    "copy.deepcopy": mk_copy(True),
    "builtins.isinstance": m_isinstance,
    "builtins.hasattr": m_hasattr,
    "builtins.getattr": m_getattr,
    "builtins.setattr": m_setattr,
    "builtins.delattr": m_delattr,
    "builtins.len": m_len,
    "builtins.str": m_str,
    "builtins.repr": m_repr,
    "builtins.str.__new__": lambda e, st, a, kw, n: e.new_base(st, a, n),
    "builtins.object.__new__": lambda e, st, a, kw, n: e.new_base(st, a, n),
    "builtins.int": m_int,
    "builtins.bool": m_bool,
    "builtins.type": m_type,
    "builtins.list": mk_listlike("list"),
    "builtins.tuple": mk_listlike("tup"),
    "builtins.set": m_setfn,
    "builtins.frozenset": m_frozenset,
    "builtins.dict": listed(m_dict),
    "builtins.any": pure_listed(m_anyall("any")),
    "builtins.all": pure_listed(m_anyall("all")),
    "builtins.filter": listed(m_filter),
    "builtins.min": listed(m_minmax("min")),
    "builtins.max": listed(m_minmax("max")),
    "builtins.sum": m_sum,
    "builtins.reversed": m_reversed,
    "builtins.sorted": m_sorted,
    "builtins.enumerate": m_enumerate,
    "builtins.map": m_map,
    "builtins.zip": listed(m_zip),
    "builtins.iter": m_iter,
    "builtins.next": m_next,
    "builtins.callable": m_callable,
    "builtins.range": m_range,
    "builtins.issubclass": m_issubclass,
    "builtins.object": m_object,
    "builtins.bytes": m_bytes,
    "builtins.hash": m_hash,
    "functools.partial": m_partial,
    "functools.wraps": m_wraps,
    "builtins.vars": m_vars,
    "urllib.parse.urlencode": m_urlencode,
    "typing.cast": m_identity1(1),
    "warnings.warn": m_none,
    "builtins.print": m_none,
    **{"inspect." + q: m_inspect(q) for q in ("isfunction", "ismethod", "isroutine", "isclass", "isgeneratorfunction", "isasyncgenfunction")},
    "inspect.iscoroutinefunction": m_iscoro,
    "asyncio.iscoroutinefunction": m_iscoro,
    "contextlib.contextmanager": m_contextmanager,
    "contextlib.suppress": lambda e, st, a, kw, n: ok(st, mk("stdcm", ("suppress", tuple(a)))),
    "contextlib.closing": lambda e, st, a, kw, n: ok(st, mk("stdcm", ("close", tuple(a)))),
    "contextlib.aclosing": lambda e, st, a, kw, n: ok(st, mk("stdcm", ("aclose", tuple(a)))),
    "contextlib.nullcontext": lambda e, st, a, kw, n: ok(st, mk("stdcm", ("null", tuple(a)))),
    "contextlib.asynccontextmanager": m_contextmanager,
    "traceback.format_exc": m_exc_text,
    "http.HTTPStatus": m_httpstatus,
}


# ------------------------------------------------------------------ methods on opaque terms
def tm_get(e, st, recv, args, kw, n):
    if recv.tag != "t" or not args:
        return None
    d = args[1] if len(args) > 1 else kw.get("default", NONE)
    k = e.known(st, args[0])
    ov = st.heap.get(mk("attrs", (recv,)))
    if ov is not None and k in ov.d:
        return ok(st, ov.d[k] if ov.d[k] is not ABSENT else d)
    res = []
    for b, s2 in e.branch(st, T("in", k, recv)):
        res.append(("ok", s2, T("item", recv, k) if b else d))
    return res


def tm_items(e, st, recv, args, kw, n):
    if recv.tag == "t":
        return ok(st, T("m", "items", recv))


def tm_anext(e, st, recv, args, kw, n):
    return None


TM = {"get": tm_get}


# ------------------------------------------------------------------ methods on builtin containers / constants
def call_bm(e, st, r, name, args, kw, n):
    if is_c(r):
        return const_method(e, st, r, name, args, kw, n)
    if name == "with_traceback" and r.tag != "tup":
        return ok(st, args[0] if r.tag == "cls" else r)
    if r.tag == "tup":
        if name == "index" or name == "count":
            return ok(st, T("m", name, r, *args))
        return ok(st, T("m", name, r, *args))
    if r.tag == "cm" and name in ("__enter__", "__exit__"):
        x = e.cm_step(st, r, name, args, n)
        if x is not None:
            return x
    if r.tag == "gen":
        if name in ("__anext__", "__next__"):
            if r.a[0] == "async":
                return ok(st, mk("anext", (r, NONE)))
            return first_of(e, st, r, n, None, False)
        if name in ("__aiter__", "__iter__"):
            return ok(st, r)
        return ok(st, NONE)
    if r.tag == "ref":
        o = st.heap[r]
        f = globals().get(f"{o.kind}_{name}")
        if f is not None:
            v = f(e, st, r, o, args, kw, n)
            if v is not None:
                return v
        if o.kind in ("dict", "list", "set") and not kw:
            if name == "__getitem__" and len(args) == 1:
                return e.getitem(st, r, args[0], n)
            if name == "__setitem__" and len(args) == 2:
                return e.setitem(st, r, args[0], args[1], n)
            if name == "__delitem__" and len(args) == 1:
                return e.delitem(st, r, args[0], n)
            if name == "__contains__" and len(args) == 1:
                return e.contains(st, args[0], r, n)
            if name == "__len__" and not args:
                return m_len(e, st, [r], {}, n)
            if name == "__iter__" and not args:
                return ok(st, r)
        if o.kind == "inst" and name == "_asdict" and isinstance(o.cls, ClassInfo) and not args and not kw:
            return ok(st, e.new_dict(st, n, {C(f): o.d[f] for f, _ in o.cls.annots}))
        if o.kind == "inst" and name == "_replace" and isinstance(o.cls, ClassInfo) and not args:
            if any(k not in [f for f, _ in o.cls.annots] for k in kw):
                return [("raise", st, e.new_inst(st, n, Ext("builtins.ValueError")))]
            return ok(st, e.new_inst(st, n, o.cls, {**o.d, **kw}))
        if o.kind == "inst":
            return mapping_mixin(e, st, r, name, args, kw, n)
        if o.kind in ("list", "set", "dict"):
            if o.kind == "list" and name == "sort" and o.items:
                for k, s2, v in m_sorted(e, st, [r], kw, n):
                    if v.tag == "ref" and s2.heap[v].kind == "list":
                        st.heap[r] = o.with_items(s2.heap[v].items)
                        return ok(st, NONE)
            if o.kind == "list" and name == "reverse" and not any(x.tag == "rest" for x in o.items):
                st.heap[r] = o.with_items(tuple(reversed(o.items)))
                return ok(st, NONE)
            if name in ("sort", "reverse"):
                st.heap[r] = o.with_items((e.rest(T(name, T("listval", *o.items))),)) if o.items else o
                return ok(st, NONE)
            e.notes.append(f"{o.kind}.{name} unmodelled at {e.loc(n)}")
            return ok(st, T("m", name, r, *args))
    if r.tag == "instdict":
        return ok(st, T("m", name, r, *args))
    return e.unknown_call(st, T("attr", r, name), args, kw, n)


def mapping_mixin(e, st, r, name, args, kw, n):
    """inherited methods of instances: those of the abstract collections are interpreted, others are opaque"""
    ci = st.heap[r].cls
    m = e.p.mixin(ci, name) if isinstance(ci, ClassInfo) else None
    if m is not None:
        return e.call(st, Bound(r, Fn(m, None)), list(args), dict(kw), n)
    return e.unknown_call(st, T("attr", r, name), args, kw, n)


def const_method(e, st, r, name, args, kw, n):
    s = cval(r)
    args = [e.known(st, a) for a in args]
    if name == "join" and args:
        return join(e, st, r, args[0], n)
    if name == "format" and isinstance(s, str):
        t = fmt(e, st, s, args, kw)
        if t is not None:
            return e.render(st, t, n)
    if isinstance(s, (str, bytes)) and name in FOLD_STR and all(is_c(x) for x in kw.values()):
        pa = []
        good = True
        for a in args:
            if is_c(a):
                pa.append(cval(a))
            elif a.tag == "tup" and all(is_c(x) for x in a.a):
                pa.append(tuple(cval(x) for x in a.a))
            else:
                good = False
        if good:
            try:
                v = getattr(s, name)(*pa, **{k: cval(x) for k, x in kw.items()})
            except Exception as ex:
                return [("raise", st, e.new_inst(st, n, Ext("builtins." + type(ex).__name__)))]
            if isinstance(v, list):
                return ok(st, e.new_list(st, n, [C(x) for x in v]))
            if isinstance(v, tuple):
                return ok(st, Tup([C(x) for x in v]))
            return ok(st, C(v))
    return ok(st, T("m", name, r, *args, *[x for k, v in sorted(kw.items()) for x in (C(k), v)]))


def join(e, st, sep, it, n):
    outs = mk_listlike("list")(e, st, [it], {}, n) if it.tag in ("gen",) or is_t(it, "mapf") else ok(st, it)

    def f(st, v):
        items = None
        if v.tag == "tup":
            items = list(v.a)
        elif v.tag == "ref" and st.heap[v].kind in ("list",):
            items = list(st.heap[v].items)
        elif v.tag == "ref" and st.heap[v].kind == "set":
            return ok(st, T("joined", sep, *sorted(st.heap[v].items, key=repr)))
        if items is not None and not any(x.tag == "rest" for x in items):
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(sep)
                parts.append(x)
            return ok(st, e.concat(st, parts, cval(sep)[:0]))
        if items is not None:
            return ok(st, T("joined", sep, *items))
        return ok(st, T("joined", sep, e.rest(v)))
    return e.bind(outs, f)


def fmt(e, st, s, args, kw):
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            if spec or conv not in (None, "r", "s"):
                return None
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return None
            parts.append((v, conv or "s", ""))
    except (ValueError, IndexError):
        return None
    return parts


# -- list
def list_append(e, st, r, o, a, kw, n):
    st.heap[r] = o.with_items(o.items + (a[0],))
    return ok(st, NONE)


def list_extend(e, st, r, o, a, kw, n):
    v = a[0]
    if v.tag == "gen":
        return e.bind(mk_listlike("list")(e, st, [v], {}, n), lambda st, l: list_extend(e, st, r, st.heap[r], [l], kw, n))
    res = []
    for k, s2, segs in e.segments(st, v, n):
        if k == "ok":
            s2.heap[r] = s2.heap[r].with_items(s2.heap[r].items + tuple(s[1] if s[0] == "known" else e.rest(s[1], s[2]) for s in segs))
            res.append(("ok", s2, NONE))
        else:
            res.append((k, s2, segs))
    return res


def list_insert(e, st, r, o, a, kw, n):
    if is_c(a[0]) and cval(a[0]) == 0:
        st.heap[r] = o.with_items((a[1],) + o.items)
    elif is_c(a[0]) and not any(x.tag == "rest" for x in o.items):
        it = list(o.items)
        it.insert(cval(a[0]), a[1])
        st.heap[r] = o.with_items(it)
    else:
        st.heap[r] = o.with_items((e.rest(T("inserted", T("listval", *o.items), *a)),))
    return ok(st, NONE)


def list_pop(e, st, r, o, a, kw, n):
    i = cval(a[0]) if a and is_c(a[0]) else (-1 if not a else None)
    if i == -1 and o.items and o.items[-1].tag != "rest":
        st.heap[r] = o.with_items(o.items[:-1])
        return ok(st, o.items[-1])
    if i == 0 and o.items and o.items[0].tag != "rest":
        st.heap[r] = o.with_items(o.items[1:])
        return ok(st, o.items[0])
    if not o.items:
        return [("raise", st, e.new_inst(st, n, Ext("builtins.IndexError")))]
    t = T("popped", T("listval", *o.items), *a)
    st.heap[r] = o.with_items((e.rest(T("afterpop", T("listval", *o.items), *a)),))
    return ok(st, t)


def list_copy(e, st, r, o, a, kw, n):
    return ok(st, e.new_list(st, n, o.items))


def list_clear(e, st, r, o, a, kw, n):
    st.heap[r] = o.with_items(())
    return ok(st, NONE)


def list_remove(e, st, r, o, a, kw, n):
    if a[0] in o.items:
        it = list(o.items)
        it.remove(a[0])
        st.heap[r] = o.with_items(it)
    else:
        st.heap[r] = o.with_items((e.rest(T("removed", T("listval", *o.items), *a)),))
    return ok(st, NONE)


def list_index(e, st, r, o, a, kw, n):
    return ok(st, T("m", "index", T("listval", *o.items), *a))


def list_count(e, st, r, o, a, kw, n):
    return ok(st, T("m", "count", T("listval", *o.items), *a))


# -- set
def set_add(e, st, r, o, a, kw, n):
    if a[0] not in o.items:
        st.heap[r] = o.with_items(o.items + (a[0],))
    return ok(st, NONE)


def set_update(e, st, r, o, a, kw, n):
    return list_extend(e, st, r, o, a, kw, n)


def set_discard(e, st, r, o, a, kw, n):
    st.heap[r] = o.with_items(tuple(x for x in o.items if x is not a[0]))
    return ok(st, NONE)


def finite_items(st, v):
    """elements of a collection of known extent, or None"""
    if is_c(v) and isinstance(cval(v), (tuple, frozenset, set)):
        return [C(x) for x in sorted(cval(v), key=repr)]
    if v.tag == "tup":
        return list(v.a)
    if v.tag == "ref" and v in st.heap:
        o = st.heap[v]
        if o.kind in ("list", "set") and not any(x.tag in ("rest", "maybe") for x in o.items):
            return list(o.items)
        if o.kind == "dict" and o.base is None and not any(x is ABSENT for x in o.d.values()):
            return list(o.d)
    return None


def subset(e, st, a, b, n):
    """a <= b for a of known extent: [(k, s, term)] or None"""
    its = finite_items(st, a)
    if its is None:
        return None
    cur = [("ok", st, [])]
    for x in its:
        nx = []
        for k, s, ts in cur:
            for k2, s2, t in e.contains(s, x, b, n):
                nx.append((k2, s2, ts + [t]) if k2 == "ok" else (k2, s2, t))
        cur = nx
    return [(k, s, mkand([TRUE if e.truth(s, t) is True else FALSE if e.truth(s, t) is False else t for t in ts]) if k == "ok" else ts) for k, s, ts in cur]


def set_filter(e, st, a, b, n, keep):
    """elements of a (known extent) that are / are not in b, forking over membership"""
    its = finite_items(st, a)
    if its is None:
        return None
    cur = [(st, ())]
    for x in its:
        nx = []
        for s, r in cur:
            for k, s2, t in e.contains(s, x, b, n):
                if k != "ok":
                    return None
                for v, s3 in e.branch(s2, t):
                    nx.append((s3, r + (x,) if v == keep else r))
        cur = nx
    return [("ok", s, e.alloc(s, n, Obj("set", items=r))) for s, r in cur]


def set_issubset(e, st, r, o, a, kw, n):
    return subset(e, st, r, a[0], n) or ok(st, T("m", "issubset", r, *a))


def set_issuperset(e, st, r, o, a, kw, n):
    return subset(e, st, a[0], r, n) or ok(st, T("m", "issuperset", r, *a))


def set_difference(e, st, r, o, a, kw, n):
    x = set_filter(e, st, r, a[0], n, False) if len(a) == 1 else None
    return x or ok(st, T("m", "difference", r, *a))


def set_intersection(e, st, r, o, a, kw, n):
    x = (set_filter(e, st, r, a[0], n, True) or set_filter(e, st, a[0], r, n, True)) if len(a) == 1 else None
    return x or ok(st, T("m", "intersection", r, *a))


def set_copy(e, st, r, o, a, kw, n):
    return ok(st, e.alloc(st, n, Obj("set", items=o.items)))


# -- dict
def dict_get(e, st, r, o, a, kw, n):
    d = a[1] if len(a) > 1 else kw.get("default", NONE)
    return e.dict_get(st, r, e.known(st, a[0]), n, default=d)


def dict_setdefault(e, st, r, o, a, kw, n):
    k = e.known(st, a[0])
    d = a[1] if len(a) > 1 else NONE
    if k in o.d and o.d[k] is not ABSENT:
        return ok(st, o.d[k])
    if o.base is None or k in o.d:
        st.heap[r] = o.put(k, d)
        return ok(st, d)
    res = []
    for b, s2 in e.branch(st, T("in", k, o.base)):
        if b:
            res.append(("ok", s2, T("item", o.base, k)))
        else:
            s2.heap[r] = s2.heap[r].put(k, d)
            res.append(("ok", s2, d))
    return res


def dict_pop(e, st, r, o, a, kw, n):
    k = e.known(st, a[0])
    d = a[1] if len(a) > 1 else None
    res = []
    for kk, s2, v in e.dict_get(st, r, k, n, default=d):
        if kk == "ok":
            ob = s2.heap[r]
            if k in ob.d or ob.base is not None:
                s2.heap[r] = ob.put(k, ABSENT) if ob.base is not None else ob.rem(k)
        res.append((kk, s2, v))
    return res


def dict_popitem(e, st, r, o, a, kw, n):
    if o.base is not None or a or kw:
        return None
    live = [(k, v) for k, v in o.d.items() if v is not ABSENT]
    if not live:
        return [("raise", st, e.new_inst(st, n, Ext("builtins.KeyError")))]
    k, v = live[-1]
    st.heap[r] = o.put(k, ABSENT)
    return ok(st, Tup([k, v]))


def dict_update(e, st, r, o, a, kw, n):
    d = dict(o.d)
    base = o.base
    if a:
        v = a[0]
        if v.tag == "ref" and st.heap[v].kind == "inst":
            outs = mapping_pairs(e, st, v, n)
            if outs is not None:
                def upd(s, ps):
                    l = e.new_list(s, n, [Tup(x) for x in ps])
                    return dict_update(e, s, r, s.heap[r], [l], kw, n)
                return e.bind(outs, upd)
        if v.tag == "gen" and v.a[1] == "ge":
            return e.bind(mk_listlike("list")(e, st, [v], {}, n), lambda s, l: dict_update(e, s, r, s.heap[r], [l], kw, n))
        if v.tag == "ref" and st.heap[v].kind == "dict":
            s = st.heap[v]
            if s.base is not None:
                base = s.base if base is None and not d else T("merged", base if base is not None else C("{}"), s.base)
                if o.base is not None or o.d:
                    d = {k: x for k, x in d.items()}
            d.update(s.d)
        elif v.tag == "tup" or (v.tag == "ref" and st.heap[v].kind == "list"):
            items = v.a if v.tag == "tup" else st.heap[v].items
            for x in items:
                if x.tag == "tup" and len(x.a) == 2:
                    d[x.a[0]] = x.a[1]
                else:
                    base = T("merged", base if base is not None else C("{}"), x)
        else:
            # unknown mapping: previously known keys may be overwritten
            base = T("merged", base if base is not None else C("{}"), v, *[x for k, y in d.items() if isinstance(y, V) and y is not ABSENT for x in (k, y)])
            d = {}
    for k, v in kw.items():
        if k == "**":
            base = T("merged", base if base is not None else C("{}"), v)
        else:
            d[C(k)] = v
    st.heap[r] = Obj("dict", o.cls, d, o.items, base)
    return ok(st, NONE)


def dict_copy(e, st, r, o, a, kw, n):
    return ok(st, e.new_dict(st, n, o.d, o.base))


def dict_clear(e, st, r, o, a, kw, n):
    st.heap[r] = Obj("dict")
    return ok(st, NONE)


def dict_keys(e, st, r, o, a, kw, n):
    items = [k for k, v in o.d.items() if v is not ABSENT]
    if o.base is not None:
        if is_t(o.base, "dictof") and isinstance(o.base.a[1], V) and len(o.base.a) == 3 and o.base.a[2].tag == "tup":
            items.append(e.rest(o.base.a[1], o.base.a[2].a[0]))
        else:
            items.append(e.rest(T("m", "keys", o.base)))
    if len(items) == 1 and o.base is not None and not o.d and items[0].a[1] is None:
        return ok(st, T("m", "keys", o.base))
    return ok(st, e.alloc(st, n, Obj("list", items=tuple(items))))


def dict_items(e, st, r, o, a, kw, n):
    items = [Tup((k, v)) for k, v in o.d.items() if v is not ABSENT]
    if o.base is not None:
        if not items:
            return ok(st, T("m", "items", o.base))
        items.append(e.rest(T("m", "items", o.base)))
    return ok(st, e.alloc(st, n, Obj("list", items=tuple(items))))


def dict_values(e, st, r, o, a, kw, n):
    items = [v for k, v in o.d.items() if v is not ABSENT]
    if o.base is not None:
        items.append(e.rest(T("m", "values", o.base)))
    return ok(st, e.alloc(st, n, Obj("list", items=tuple(items))))


def dict___contains__(e, st, r, o, a, kw, n):
    return e.contains(st, a[0], r, n)
