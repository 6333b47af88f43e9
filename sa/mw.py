"""Driving an ASGI middleware: constructed through its public constructor, called with a symbolic scope, around an inner
application modelled as a most general client that uses the receive/send it was given."""
from __future__ import annotations

from .asgi import *
from .interp import *
from .lib import ok
from .values import *

APP = T("sym", "app")


def snap(eng, st, m):
    """immutable picture of a message: ((key, value-or-('list', items)) ..., base, identity)"""
    if m.tag == "ref" and st.heap[m].kind == "dict":
        o = st.heap[m]
        out = []
        for k, v in o.d.items():
            if v is ABSENT:
                continue
            if v.tag == "ref" and st.heap[v].kind == "list":
                out.append((k, mk("snaplist", tuple(st.heap[v].items) + (v,))))
            else:
                out.append((k, v))
        return mk("snap", (tuple(sorted(out, key=lambda kv: repr(kv[0]))), o.base if o.base is not None else NONE, m))
    return mk("snap", ((), m, m))


def sfield(sn, key, default=None):
    for k, v in sn.a[0]:
        if k is C(key):
            return v
    if sn.a[1] is not NONE:
        return T("item", sn.a[1], C(key))
    return default


def stype(sn):
    t = sfield(sn, "type")
    return cval(t) if t is not None and is_c(t) else None


class Msg:
    def __init__(self, typ, **fields):
        self.typ, self.fields = typ, fields

    def make(self, eng, st, i, extra=()):
        d = {C("type"): C(self.typ)}
        for k, v in self.fields.items():
            if callable(v):
                v = v(eng, st, i)
            d[C(k)] = v
        for k, v in extra:
            d[C(k)] = v
        ref = eng.new_dict(st, f"appmsg{i}:{self.typ}", d)
        return ref


def hdrs(name="apphdr"):
    def f(eng, st, i):
        return eng.new_list(st, f"apphdrlist{i}", [eng.rest(S(name))])
    return f


def START(**kw):
    return Msg("http.response.start", **{"status": S("status"), "headers": hdrs(), **kw})


def BODY(name, more=None, **kw):
    f = {"body": S(name)} if name else {}
    if more is not None:
        f["more_body"] = B(more)
    return Msg("http.response.body", **f, **kw)


class MwEnv(AsgiEnv):
    """scripts: message sequences the inner application sends; app_raise: it may also raise at any point"""

    def __init__(self, scripts=((),), app_raise=False, receives=0):
        super().__init__()
        self.scripts = list(scripts)
        self.app_raise = app_raise
        self.receives = receives

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "app":
            a = list(args) + [kwargs[k] for k in ("scope", "receive", "send")[len(args):] if k in kwargs]
            return ok(st, aw("app", *a))
        return None

    def ev(self, st, *e):
        st.mon["ev"] = st.mon.get("ev", ()) + (tuple(e),)

    def app_exc(self, eng, st, node):
        return T("exc", "builtins.Exception", "app")

    def aw_app(self, eng, st, args, node):
        st.note(eng.loc(node), "inner application called")
        self.ev(st, "app", *args)
        st.mon["scope_at_app"] = snap(eng, st, args[0]) if args and args[0].tag == "ref" else NONE
        if len(args) != 3:
            return ok(st, NONE)
        scope, receive, send = args
        res = []
        for n, script in enumerate(self.scripts):
            cur = [st.fork()]
            for i in range(self.receives):
                nx = []
                for s in cur:
                    for k, s2, v in eng.run_call(s, receive, []):
                        if k == "ok":
                            s2.mon["rcvd"] = s2.mon.get("rcvd", ()) + (v,)
                            nx.append(s2)
                        else:
                            self.ev(s2, "rcvraise", v)
                            res.append((k, s2, v))
                cur = nx
            for s in cur:
                s.mon["script"] = n
            for i, m in enumerate(script):
                nx = []
                for s in cur:
                    if self.app_raise:
                        s3 = s.fork()
                        s3.note(eng.loc(node), f"inner application raises before message {i}")
                        self.ev(s3, "appraise", i)
                        res.append(("raise", s3, self.app_exc(eng, s3, node)))
                    ref = m.make(eng, s, i)
                    s.note(eng.loc(node), f"inner application sends {m.typ}")
                    self.ev(s, "sent", snap(eng, s, ref))
                    for k, s2, v in eng.run_call(s, send, [ref]):
                        if k == "ok":
                            nx.append(s2)
                        else:
                            res.append((k, s2, v))
                cur = eng_dedupe(eng, nx)
            for s in cur:
                if self.app_raise:
                    s3 = s.fork()
                    s3.note(eng.loc(node), "inner application raises at its end")
                    self.ev(s3, "appraise", len(script))
                    res.append(("raise", s3, self.app_exc(eng, s3, node)))
                s.mon["appdone"] = True
                res.append(("ok", s, NONE))
        return eng.dedupe(res)

    def on_send(self, eng, st, msg, node):
        self.ev(st, "fwd", snap(eng, st, msg))

    def env_raises(self, eng, st, what, node, extra=()):
        return []


def eng_dedupe(eng, states):
    return [o[1] for o in eng.dedupe([("ok", s, NONE) for s in states])]


def build(eng, st, qual, kw):
    """instances: [(state, ref)] through the constructor"""
    ci = eng.p.cls(qual)
    out = []
    js, eng.join_sync = eng.join_sync, None
    try:
        r = eng.call(st, Cls(ci), [], dict(kw), "construct")
    finally:
        eng.join_sync = js
    for k, s, v in r:
        if k == "ok":
            out.append((s, v))
    return out


def build_fails(eng, st, qual, kw):
    """every construction path raises"""
    r = eng.call(st, Cls(eng.p.cls(qual)), [], dict(kw), "construct")
    return bool(r) and all(o[0] == "raise" for o in r)


def ctor_params(p, qual):
    r = p.cls(qual).find("__init__")
    if r is None or r[1] != "fn":
        return []
    a = r[2].node.args
    return [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]


def sym_args(p, qual, preset=None):
    preset = preset or {}
    return {n: preset[n] if n in preset else S(n) for n in ctor_params(p, qual) if n not in preset or preset[n] is not None}


def middleware_classes(p):
    """classes with an `app` constructor parameter and an async ASGI __call__, in the middleware package"""
    out = []
    for q, ci in sorted(p.all_classes().items()):
        if not q.startswith("starlette.middleware."):
            continue
        if q.rsplit(".", 1)[1].startswith("_"):
            continue
        ps = ctor_params(p, q)
        if not ps or ps[0] != "app":
            continue
        r = ci.find("__call__")
        if r is None or r[1] != "fn" or not r[2].is_async:
            continue
        out.append(q)
    return out


def events(st, *kinds):
    return [e for e in st.mon.get("ev", ()) if e[0] in kinds]


def clist(eng, st, vals, name="cfg"):
    """a list of constants (representative configuration)"""
    return eng.new_list(st, "cfg:" + name + repr(vals), [C(v) for v in vals])


def first_item_forms(x, sep):
    """terms denoting the part of x before the first separator"""
    sp = C(sep)
    out = []
    for args in ((sp,), (sp, C(1))):
        out.append(T("item", T("m", "split", x, *args), C(0)))
    out.append(T("item", T("m", "partition", x, sp), C(0)))
    return out


def starts(st):
    """response starts forwarded to the server"""
    return [e[1] for e in events(st, "fwd") if (stype(e[1]) or "").endswith("response.start")]


def configs(p, q):
    """representative constructor configurations: [(label, f(eng, st) -> kwargs)]; options not listed stay symbolic"""
    C_ = "starlette.middleware."
    if q == C_ + "cors.CORSMiddleware":
        def mk_(**o):
            def f(eng, st):
                kw = {"app": APP}
                for k, v in o.items():
                    kw[k] = clist(eng, st, list(v), k) if isinstance(v, tuple) else v if isinstance(v, V) else C(v)
                return kw
            return f
        return [
            ("defaults", mk_()),
            ("any origin", mk_(allow_origins=("*",), allow_methods=("*",), allow_headers=("*",))),
            ("any origin, credentials", mk_(allow_origins=("*",), allow_methods=("*",), allow_headers=("*",), allow_credentials=True, expose_headers=("X-Status",))),
            ("listed origins", mk_(allow_origins=("https://a.example", "https://b.example"), allow_headers=("X-Token", "Content-Type"), allow_methods=("GET", "POST"))),
            ("listed origins, credentials", mk_(allow_origins=("https://a.example",), allow_credentials=True, allow_headers=("X-Token",), expose_headers=("X-Status", "X-Two"))),
            ("regex", mk_(allow_origin_regex=S("origin_regex"))),
            ("regex and list, credentials", mk_(allow_origin_regex=S("origin_regex"), allow_origins=("https://a.example",), allow_credentials=True)),
        ]
    if q == C_ + "trustedhost.TrustedHostMiddleware":
        return [("list", lambda eng, st: {"app": APP, "allowed_hosts": clist(eng, st, ["example.com", "*.example.org"])}),
                ("any", lambda eng, st: {"app": APP})]
    if q == C_ + "exceptions.ExceptionMiddleware":
        return [("no handlers", lambda eng, st: {"app": APP}),
                ("handlers", lambda eng, st: {"app": APP, "handlers": eng.new_dict(st, "cfg:handlers", {C(404): S("handler"), Ext("builtins.ValueError"): S("handler")})})]
    return [("symbolic", lambda eng, st: sym_args(p, q))]
