"""Path analysis of the requires() decorator.

requires() is applied, for several scope lists and redirect targets, to a symbolic function of each kind
(sync and async request handler, object with async __call__, websocket handler; with the connection as first or second parameter, passed by position
or by name), and the decorated function is interpreted with a connection whose granted scopes are symbolic.  The branch
facts of every path must decide whether all required scopes are granted; the wrapped function is called (once, with the
caller's arguments, its result returned) exactly on the paths where they are, and on the others the request is answered
with the configured HTTPException, a 303 redirect carrying the original URL, or one websocket close.
"""
from ..mw import *
from .common import *

FN = "starlette.authentication.requires"
CREDS = T("item", SCOPE, C("auth"))
GRANTED = T("attr", CREDS, "scopes")
FUNC = S("func")


class Env18(MwEnv):
    def __init__(self, ctx, names, isasync):
        super().__init__()
        self.ctx, self.names, self.isasync = ctx, names, isasync

    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "inspect.signature" and args[0] is FUNC:
            return ok(st, T("sig"))
        if q.endswith("iscoroutinefunction"):
            if args[0] is FUNC:
                return ok(st, B(self.isasync is True))
            if args[0] is T("attr", FUNC, "__call__"):
                return ok(st, B(self.isasync == "object"))
        return super().on_ext(eng, st, q, args, kwargs, node)

    def getattr(self, eng, st, b, name, node):
        if b is T("sig") and name == "parameters":
            return ok(st, eng.new_dict(st, node, {C(n): T("param", n) for n in self.names}))
        if is_t(b, "param") and name == "name":
            return ok(st, C(b.a[1]))
        return super().getattr(eng, st, b, name, node)

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "func":
            self.ev(st, "func", tuple(args), tuple(sorted(kwargs.items())))
            return ok(st, aw("func") if self.isasync else S("result"))
        return super().on_call(eng, st, name, args, kwargs, node)

    def aw_func(self, eng, st, args, node):
        self.ev(st, "awaited")
        return ok(st, S("result"))


def run(ctx):
    ctx.rule("scopes-required", "the wrapped function runs if and only if every required scope is granted to the connection")
    ctx.rule("call-through", "the wrapped function receives exactly the caller's arguments, once, and its result is returned")
    ctx.rule("denied", "a denied request raises HTTPException with the configured status, redirects (303, with the original URL), or closes the websocket")
    ctx.rule("refuse-signature", "a function without a request or websocket parameter is refused when decorated")
    for scopes in ("one", ("one", "two"), ()):
        for kind in ("sync", "async", "object", "websocket"):
            for idx in (0, 1):
                for bykw in (False, True):
                    for redirect in ((None, "login") if kind != "websocket" else (None,)):
                        one(ctx, scopes, kind, idx, bykw, redirect)
    refuse(ctx)
    ctx.need("granted path", 20)
    ctx.need("denied path", 20)


def decorate(eng, st, kw):
    fv = Fn(eng.p.fn(FN))
    out = []
    st.facts[FUNC] = Fact(nota=frozenset(["functools.partial"]), tr=True)
    st.facts[T("callable", FUNC)] = Fact(tr=True)
    for k, s, dec in eng.run_call(st, fv, [kw.pop("scopes")], kw):
        if k != "ok":
            out.append((k, s, dec))
            continue
        out.extend(eng.run_call(s, dec, [FUNC]))
    return out


def refuse(ctx):
    eng = ctx.engine(Env18(ctx, ("a", "b"), False))
    for k, s, v in decorate(eng, eng.start_state(), {"scopes": C("one")}):
        ctx.oblige("refusal")
        if k != "raise":
            eng.report("refuse-signature", FN, s, "a function without request/websocket parameter is accepted")


def one(ctx, scopes, kind, idx, bykw, redirect):
    pname = "websocket" if kind == "websocket" else "request"
    names = ("first",) * idx + (pname,)
    env = Env18(ctx, names, {"sync": False, "object": "object"}.get(kind, True))
    eng = ctx.engine(env)
    need = [scopes] if isinstance(scopes, str) else list(scopes)
    label = f"requires({scopes!r}) {kind} arg {idx}{' by name' if bykw else ''}{' redirect' if redirect else ''}: "

    def url_for(e, st, a, kw, n):
        return ok(st, T("call", "url_for", *a[1:]))
    if has_fn(eng.p, "starlette.requests.HTTPConnection.url_for"):
        eng.models["starlette.requests.HTTPConnection.url_for"] = url_for

    def url(e, st, a, kw, n):
        return ok(st, T("call", "request_url", T("item", SCOPE, C("path"))))
    if has_fn(eng.p, "starlette.requests.HTTPConnection.url"):
        eng.models["starlette.requests.HTTPConnection.url"] = url
    st0 = eng.start_state()
    kw = {"scopes": C(scopes) if isinstance(scopes, str) else clist(eng, st0, need), "status_code": C(401)}
    if redirect:
        kw["redirect"] = C(redirect)
    for k, st, w in decorate(eng, st0, kw):
        if k != "ok":
            eng.report("scopes-required", FN, st, label + f"decorating raises {show(w)}")
            continue
        if w.tag == "fn" and w.a[0].is_async != bool(env.isasync):
            eng.report("call-through", FN, st, label + "the decorated function is " + ("not " if env.isasync else "") + "a coroutine function, unlike the original")
        scope = new_scope(eng, st, "websocket" if kind == "websocket" else "http")
        st.facts[T("in", C("auth"), SCOPE)] = Fact(tr=True)
        cq = "starlette.websockets.WebSocket" if kind == "websocket" else "starlette.requests.Request"
        for k1, s1, conn in eng.call(st, Cls(eng.p.cls(cq)), [scope, RECEIVE, SEND], {}, "conn"):
            if k1 != "ok":
                continue
            if kind == "websocket":   # the handshake may or may not have been accepted yet
                pass
            args = [S("a0")] * idx
            kws = {}
            if bykw:
                kws = {pname: conn, "extra": S("x")}
            else:
                args = args + [conn, S("more")]
            for k2, s, v in eng.run_call(s1, w, args, kws):
                check(ctx, eng, env, s, k2, v, need, kind, redirect, conn, args, kws, lambda rule, t: eng.report(rule, FN, s, label + t))


def check(ctx, eng, env, s, k, v, need, kind, redirect, conn, args, kws, rep):
    tr = [eng.truth(s, T("in", C(n), GRANTED)) for n in need]
    calls = events(s, "func")
    fw = [stype(e[1]) for e in events(s, "fwd")]
    if any(t is False for t in tr):
        ctx.oblige("denied path")
        if calls:
            rep("scopes-required", "the function runs although a required scope is missing")
            return
        if kind == "websocket":
            if k != "ok" or fw != ["websocket.close"]:
                rep("denied", f"websocket: {k}, sent {fw}")
        elif redirect:
            if k != "ok" or v.tag != "ref" or s.heap[v].kind != "inst":
                rep("denied", f"no redirect response: {k} {show(v)}")
                return
            o = s.heap[v]
            st_, raw = None, None
            for kk, s2, x in eng.getattr(s.fork(), v, "status_code", "attr"):
                st_ = x
            loc = None
            for kk, s2, x in eng.getattr(s.fork(), v, "raw_headers", "attr"):
                if x.tag == "ref":
                    for it in s2.heap[x].items:
                        if it.tag == "tup" and it.a[0] is C(b"location"):
                            loc = it.a[1]
            if st_ is not C(303):
                rep("denied", f"redirect status {show(st_) if st_ else '?'}")
            if loc is None or not any(is_t(x, "call") and x.a[1] == "url_for" and x.a[2] is C(redirect) for x in subterms(loc)):
                rep("denied", "the redirect does not go to the configured route")
            elif not any(is_c(x) and "next" in str(cval(x)) for x in subterms(loc)) or not mentions(loc, T("item", SCOPE, C("path"))):
                rep("denied", "the redirect does not carry the original URL")
        else:
            if k != "raise" or v.tag != "ref" or s.heap[v].kind != "inst" or getattr(s.heap[v].cls, "qual", "") != "starlette.exceptions.HTTPException":
                rep("denied", f"no HTTPException: {k} {show(v)}")
            elif s.heap[v].d.get("status_code") is not C(401):
                rep("denied", f"status {show(s.heap[v].d.get('status_code', NONE))}, configured 401")
    elif all(t is True for t in tr):
        ctx.oblige("granted path")
        if len(calls) != 1:
            rep("scopes-required", f"all scopes granted but the function is called {len(calls)} times ({k} {show(v)})")
            return
        if calls[0][1] != tuple(args) or calls[0][2] != tuple(sorted(kws.items())):
            rep("call-through", "the function does not get the caller's arguments")
        if env.isasync and len(events(s, "awaited")) != 1:
            rep("call-through", "the coroutine is not awaited exactly once")
        if k != "ok" or (kind != "websocket" and v is not S("result")):
            rep("call-through", f"result lost: {k} {show(v)}")
        if fw:
            rep("call-through", f"sent {fw}")
    else:
        rep("scopes-required", "the path does not depend on every required scope")
