"""Environment shared by the checks: ASGI scope / receive / send, task groups, header containers, and the
most-general-client model of an inner ASGI application."""
from __future__ import annotations

from .interp import *
from .lib import ok
from .values import *

SCOPE = T("sym", "scope")
SEND = T("sym", "send")
RECEIVE = T("sym", "receive")


def S(name):
    return T("sym", name)


def aw(name, *args):
    """awaitable produced by an environment callable"""
    return mk("envaw", (name,) + args)


def new_scope(eng, st, typ="http", **extra):
    """an ASGI scope whose undeclared keys are symbolic; always-present keys are known to be present"""
    d = {C("type"): C(typ) if isinstance(typ, str) else typ}
    for k, v in extra.items():
        d[C(k)] = v
    ref = eng.alloc(st, "scope", Obj("dict", d=d, base=SCOPE))
    present = ["headers", "path", "type", "query_string"]
    if typ == "http":
        present.append("method")
    if typ == "lifespan":
        present = ["type"]
    for k in present:
        st.facts[T("in", C(k), SCOPE)] = Fact(tr=True)
    return ref


class AsgiEnv(Env):
    """records awaited sends/receives, models task groups; subclasses implement on_* hooks.

    raise_on: exception classes an awaited send / receive / environment call may raise (besides those some active
    handler names)."""

    raise_on = ()
    header_models = True

    def __init__(self):
        self.events = 0

    def setup(self, eng):
        if self.header_models:
            install_header_models(eng)

    # ---- calls of environment callables
    def call(self, eng, st, fv, args, kwargs, node):
        if fv is SEND:
            return ok(st, aw("send", args[0] if args else kwargs.get("message", NONE)))
        if fv is RECEIVE:
            return ok(st, aw("receive"))
        if fv.tag == "t" and fv.a[0] == "sym":
            r = self.on_call(eng, st, fv.a[1], args, kwargs, node)
            if r is not None:
                return r
        if fv.tag == "t" and fv.a[0] == "attr":
            r = self.on_method(eng, st, fv.a[1], fv.a[2], args, kwargs, node)
            if r is not None:
                return r
        if fv.tag == "ext":
            r = self.on_ext(eng, st, fv.a[0], args, kwargs, node)
            if r is not None:
                return r
        return None

    def on_call(self, eng, st, name, args, kwargs, node):
        return None

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        if is_t(recv, "tg"):
            if name == "start_soon":
                return self.start_soon(eng, st, recv, args, kwargs, node)
        if is_t(recv, "attr") and recv.a[2] == "cancel_scope" and is_t(recv.a[1], "tg") and name == "cancel":
            st.mon["cancelled"] = st.mon.get("cancelled", frozenset()) | {recv.a[1]}
            return ok(st, NONE)
        return None

    def on_ext(self, eng, st, q, args, kwargs, node):
        if q in ("anyio.create_task_group", "anyio.abc.TaskGroup", "asyncio.TaskGroup"):
            n = 0
            while True:
                t = T("tg", eng.nid(node), st.stack[-8:], n)
                if t not in st.mon.get("tgs", frozenset()):
                    break
                n += 1
            return ok(st, t)
        if q in ("anyio.to_thread.run_sync", "starlette.concurrency.run_in_threadpool"):
            if q.startswith("anyio."):      # these belong to anyio, not to the function
                kwargs = {k: v for k, v in kwargs.items() if k not in ("abandon_on_cancel", "cancellable", "limiter")}
            return self.thread_call(eng, st, args, kwargs, node)
        if q in ("anyio.sleep", "anyio.lowlevel.checkpoint"):
            return ok(st, aw("checkpoint"))
        return None

    def thread_call(self, eng, st, args, kwargs, node):
        return None

    def exhausted(self, eng, st, src, node):
        """a loop over a header list found no element with a name: the header is absent"""
        bv0 = T("item", T("bv", src), C(0))
        for alts in st.iterf.get(("all", src), ()):
            names = None
            for alt in alts:
                ne = frozenset()
                for t, f in alt:
                    if t is bv0:
                        ne = frozenset(x for x in f.ne if is_c(x) and isinstance(cval(x), bytes))
                names = ne if names is None else names & ne
            for nm in names or ():
                atom = T("hdrin", src, C(cval(nm).decode("latin-1")))
                if eng.truth(st, atom) is True:
                    return []
                st.facts[atom] = Fact(tr=False)
        return None

    # ---- awaits
    def await_(self, eng, st, v, node):
        if v.tag != "envaw":
            if self.cancelled_now(st):
                return self.do_cancel(eng, st, node)
            return None
        name, args = v.a[0], v.a[1:]
        if self.cancelled_now(st):
            return self.do_cancel(eng, st, node)
        outs = []
        if st.mon.get("prefix"):
            s2 = st.fork()
            s2.note(eng.loc(node), f"cancelled while awaiting {name}")
            s2.mon["needs_cancel"] = s2.mon.get("needs_cancel", frozenset()) | {st.mon["prefix"][-1]}
            outs.append(("raise", s2, T("exc", "ext.Cancelled", "cancel")))
        self.events += 1
        h = getattr(self, "aw_" + name, None)
        if h is None:
            raise Cut("no model for awaitable " + name)
        return outs + h(eng, st, args, node)

    def cancelled_now(self, st):
        c = st.mon.get("cancelled", frozenset())
        return any(t in c for t in st.mon.get("tgstack", ()))

    def do_cancel(self, eng, st, node):
        st.note(eng.loc(node), "cancelled (scope was cancelled)")
        return [("raise", st, T("exc", "ext.Cancelled", "cancel"))]

    def env_raises(self, eng, st, what, node, extra=()):
        """exceptions an awaited environment operation can raise"""
        act = set(extra) | set(self.raise_on)
        for hs in st.handlers:
            act |= set(hs)
        out = []
        for c in sorted(act):
            if c in ("builtins.KeyError", "builtins.AttributeError", "builtins.ModuleNotFoundError"):
                continue
            s2 = st.fork()
            s2.note(eng.loc(node), f"{what} raises {c.split('.')[-1]}")
            out.append(("raise", s2, T("exc", c, (what, eng.nid(node), s2.stack[-12:]), eng.marks(s2))))
        return out

    def aw_checkpoint(self, eng, st, args, node):
        return ok(st, NONE)

    def aw_send(self, eng, st, args, node):
        outs = self.env_raises(eng, st, "send", node)
        st.note(eng.loc(node), f"send {describe(eng, st, args[0])}")
        r = self.on_send(eng, st, args[0], node)
        return outs + (ok(st, NONE) if r is None else r)

    def on_send(self, eng, st, msg, node):
        pass

    def aw_receive(self, eng, st, args, node):
        outs = self.env_raises(eng, st, "receive", node)
        return outs + self.on_receive(eng, st, node)

    def on_receive(self, eng, st, node):
        t = eng.fresh(st, "receive", (), node)
        return ok(st, t)

    # ---- task groups (sequentialised, see DESIGN.md)
    def with_(self, eng, st, cm, node, inner, is_async):
        if not is_t(cm, "tg"):
            return None
        st.mon["tgs"] = st.mon.get("tgs", frozenset()) | {cm}
        st.mon["tgstack"] = st.mon.get("tgstack", ()) + (cm,)
        res = []
        for k, s2, v in inner(st, cm):
            res.extend(self.tg_exit(eng, s2, cm, k, v, node))
        return res

    def tg_exit(self, eng, st, cm, k, v, node):
        st.mon["tgstack"] = tuple(t for t in st.mon.get("tgstack", ()) if t is not cm)
        canc = cm in st.mon.get("cancelled", frozenset())
        need = st.mon.get("needs_cancel", frozenset())
        for key in ("tgs", "cancelled", "needs_cancel"):
            st.mon[key] = frozenset(x for x in st.mon.get(key, frozenset()) if x is not cm)
        if cm in need and not canc and k != "raise":
            return []      # a task can only be cut short when the group is cancelled
        if k == "raise" and is_t(v, "exc") and v.a[1] == "ext.Cancelled" and (canc or cm in need) and not self.cancelled_now(st):
            if canc:
                return [("next", st, None)]
            return []
        return [(k, st, v)]

    def start_soon(self, eng, st, tg, args, kwargs, node):
        """the spawned task either runs to completion before the parent continues, or is cut at one of its awaits because
        the group gets cancelled first"""
        fn, rest = args[0], list(args[1:])
        st.mon["prefix"] = st.mon.get("prefix", ()) + (tg,)
        outs = []
        for k, s2, v in eng.run_call(st, fn, rest, {}, node):
            s2.mon["prefix"] = s2.mon["prefix"][:-1]
            if k == "raise" and is_t(v, "exc") and v.a[1] == "ext.Cancelled":
                outs.append(("ok", s2, NONE))
            elif k == "raise":
                # a failing task cancels the group; its exception leaves the group
                outs.append(("raise", s2, v))
            else:
                outs.append(("ok", s2, NONE))
        return eng.dedupe(outs)


def describe(eng, st, m):
    if m.tag == "ref" and st.heap.get(m) is not None and st.heap[m].kind == "dict":
        return "{" + ", ".join(f"{show(k)}: {show(v)}" for k, v in st.heap[m].d.items() if isinstance(v, V)) + "}"
    return show(m)


def msg_get(eng, st, msg, key, default=None):
    """value of a message field: V or default (absent) ; unknown fields of an open message give the term"""
    k = C(key)
    if msg.tag == "ref" and st.heap[msg].kind == "dict":
        o = st.heap[msg]
        if k in o.d:
            return o.d[k] if o.d[k] is not ABSENT else default
        if o.base is None:
            return default
        return T("item", o.base, k)
    return T("item", msg, k)


# ------------------------------------------------------------------ Headers / MutableHeaders
HQ = "starlette.datastructures.Headers"
MQ = "starlette.datastructures.MutableHeaders"


def hlist(eng, st, slf):
    o = st.heap[slf]
    for n, v in o.d.items():
        if isinstance(v, V) and v.tag == "ref" and st.heap[v].kind == "list":
            return v
    for n, v in o.d.items():
        if isinstance(v, V) and v.tag == "t":
            # opaque raw list: materialise once so that aliasing is visible
            l = eng.alloc(st, "hdrs", Obj("list", items=(eng.rest(v),)))
            st.heap[slf] = o.put(n, l)
            return l
    raise Cut("header container without backing list")


def hkey(eng, st, k):
    k = eng.known(st, k)
    if is_c(k):
        return C(cval(k).lower().encode("latin-1")) if isinstance(cval(k), str) else k
    return eng.pure_m(st, T("m", "lower", k), "encode", [C("latin-1")])


def henc(eng, st, v):
    if is_c(v) and isinstance(cval(v), str) and all(ord(c) < 256 for c in cval(v)):
        return C(cval(v).encode("latin-1"))
    return eng.pure_m(st, v, "encode", [C("latin-1")])


def hdec(eng, st, v):
    if is_c(v) and isinstance(cval(v), bytes):
        return C(cval(v).decode("latin-1"))
    return eng.pure_m(st, v, "decode", [C("latin-1")])


def hmatch_rest(src, tmpl, k):
    """atom: some pair of an unknown header segment has (lower-cased) name k"""
    if tmpl is not None and tmpl.tag == "tup":
        return T("exists", src, eqt(tmpl.a[0], k))
    while is_t(src, "without"):
        if src.a[2] is k:
            return FALSE
        if not (is_c(src.a[2]) and is_c(k)):
            break
        src = src.a[1]
    name = cval(k).decode("latin-1") if is_c(k) and isinstance(cval(k), bytes) else k
    return T("hdrin", src, C(name) if not isinstance(name, V) else name)


def hval_rest(src, k):
    while is_t(src, "without") and is_c(src.a[2]) and is_c(k) and src.a[2] is not k:
        src = src.a[1]
    name = cval(k).decode("latin-1") if is_c(k) and isinstance(cval(k), bytes) else k
    return T("hdr", src, C(name) if not isinstance(name, V) else name)


def hdr_lookup(eng, st, lst, k):
    """case split over where header k is found: list of (state, index or None, decoded value or None)"""
    res = []
    cur = [st]
    for i, it in enumerate(st.heap[lst].items):
        nx = []
        for s in cur:
            if it.tag == "rest":
                atom = hmatch_rest(it.a[0], it.a[1], k)
                val = hval_rest(it.a[0], k)
            elif it.tag == "tup":
                atom = eng.eqterm(s, it.a[0], k)
                val = hdec(eng, s, it.a[1])
            else:
                atom = eqt(T("item", it, C(0)), k)
                val = hdec(eng, s, T("item", it, C(1)))
            for b, s2 in eng.branch(s, atom):
                if b:
                    res.append((s2, i, val))
                else:
                    nx.append(s2)
        cur = nx
    for s in cur:
        res.append((s, None, None))
    return res


def install_header_models(eng):
    def getitem(e, st, a, kw, n):
        slf, k = a
        lst = hlist(e, st, slf)
        out = []
        for s, i, v in hdr_lookup(e, st, lst, hkey(e, st, k)):
            if i is None:
                out.append(("raise", s, e.new_inst(s, n, Ext("builtins.KeyError"))))
            else:
                out.append(("ok", s, v))
        return out

    def contains(e, st, a, kw, n):
        slf, k = a
        lst = hlist(e, st, slf)
        o = st.heap[lst]
        kk = hkey(e, st, k)
        ts = []
        for it in o.items:
            if it.tag == "rest":
                ts.append(hmatch_rest(it.a[0], it.a[1], kk))
            elif it.tag == "tup":
                ts.append(e.eqterm(st, it.a[0], kk))
            else:
                ts.append(eqt(T("item", it, C(0)), kk))
        from .interp import mkor
        ts = [TRUE if e.truth(st, t) is True else FALSE if e.truth(st, t) is False else t for t in ts]
        return ok(st, mkor(ts))

    def setitem(e, st, a, kw, n):
        slf, k, v = a
        lst = hlist(e, st, slf)
        kk, vv = hkey(e, st, k), henc(e, st, v)
        hdr_set(e, st, lst, kk, vv)
        return ok(st, NONE)

    def delitem(e, st, a, kw, n):
        slf, k = a
        lst = hlist(e, st, slf)
        kk = hkey(e, st, k)
        o = st.heap[lst]
        st.heap[lst] = o.with_items(without(e, st, o.items, kk))
        return ok(st, NONE)

    def setdefault(e, st, a, kw, n):
        slf, k, v = a
        lst = hlist(e, st, slf)
        kk, vv = hkey(e, st, k), henc(e, st, v)
        out = []
        for s, i, val in hdr_lookup(e, st, lst, kk):
            if i is None:
                o = s.heap[lst]
                s.heap[lst] = o.with_items(o.items + (Tup((kk, vv)),))
                out.append(("ok", s, v))
            else:
                out.append(("ok", s, val))
        return out

    def append(e, st, a, kw, n):
        slf, k, v = a
        lst = hlist(e, st, slf)
        o = st.heap[lst]
        st.heap[lst] = o.with_items(o.items + (Tup((hkey(e, st, k), henc(e, st, v))),))
        return ok(st, NONE)

    def getlist(e, st, a, kw, n):
        slf, k = a
        lst = hlist(e, st, slf)
        kk = hkey(e, st, k)
        items = []
        for it in st.heap[lst].items:
            if it.tag == "tup" and e.eq_truth(st, it.a[0], kk) is False:
                continue
            if it.tag == "tup" and it.a[0] is kk:
                items.append(hdec(e, st, it.a[1]))
            elif it.tag == "rest":
                src = it.a[0]
                while is_t(src, "without") and is_c(src.a[2]) and is_c(kk) and src.a[2] is not kk:
                    src = src.a[1]
                if not (is_t(src, "without") and src.a[2] is kk):
                    items.append(e.rest(T("hdrlist", src, kk)))
            else:
                items.append(e.rest(T("hdrlist", it, kk)))
        return ok(st, e.new_list(st, n, items))

    for base, fns in ((HQ, {"__getitem__": getitem, "__contains__": contains, "getlist": getlist}),
                      (MQ, {"__setitem__": setitem, "__delitem__": delitem, "setdefault": setdefault, "append": append})):
        for n, f in fns.items():
            try:
                eng.p.fn(f"{base}.{n}")
            except AnchorError:
                continue
            eng.models[f"{base}.{n}"] = f


def without(e, st, items, kk):
    out = []
    for it in items:
        if it.tag == "tup" and e.eq_truth(st, it.a[0], kk) is True:
            continue
        if it.tag == "rest":
            out.append(e.rest(T("without", it.a[0], kk), it.a[1]))
        elif it.tag == "tup" and e.eq_truth(st, it.a[0], kk) is False:
            out.append(it)
        elif it.tag == "tup":
            out.append(mk("maybe", (it, kk)))
        else:
            out.append(it)
    return tuple(out)


def hdr_set(e, st, lst, kk, vv):
    o = st.heap[lst]
    st.heap[lst] = o.with_items(without(e, st, o.items, kk) + (Tup((kk, vv)),))


def raw_header(e, st, lst, name):
    """what a raw header list holds for a (bytes) name: ('value', V) | ('absent',) | ('maybe', ...) without forking"""
    kk = C(name)
    if lst.tag != "ref" or st.heap[lst].kind != "list":
        return ("opaque", lst)
    vals = []
    unknown = []
    for it in st.heap[lst].items:
        if it.tag == "tup":
            r = e.eq_truth(st, it.a[0], kk)
            if r is True:
                vals.append(it.a[1])
            elif r is None:
                unknown.append(it)
        elif it.tag == "rest":
            src, tm = it.a
            if removed_from(src, kk):
                continue
            atom = hmatch_rest(src, tm, kk)
            r = e.truth(st, atom)
            if r is True:
                vals.append(("user", src))
            elif r is None:
                unknown.append(it)
        else:
            unknown.append(it)
    return ("vals", vals, unknown)


def removed_from(src, kk):
    while is_t(src, "without"):
        if src.a[2] is kk:
            return True
        src = src.a[1]
    return False
