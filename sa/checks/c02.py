"""Path analysis of endpoint invocation: routes around functions, methods, partials, ASGI classes and HTTPEndpoint classes.

A representative client program (parsed with the package, never run) defines each kind of endpoint; Route, WebSocketRoute
and HTTPEndpoint are built and called by interpretation with a symbolic request.  The endpoint is the most general one: it
returns an unknown response or raises.  The events of every path must be exactly: the endpoint once, with a connection on
this very scope and channels, plain functions in the thread pool and coroutine functions awaited; its response sent once;
a raised exception handled by the request's own handler table once, else leaving unchanged.
"""
from .c07 import *

CLIENT = '''
import functools
from starlette.routing import Route, WebSocketRoute
from starlette.endpoints import HTTPEndpoint
from starlette.middleware import Middleware
from starlette.middleware.exceptions import ExceptionMiddleware

def s_ep(request):
    return h_s(request)

async def a_ep(request):
    return h_a(request)

async def two(request, flag):
    return h_two(request, flag)

def stwo(flag, request):
    return h_stwo(flag, request)

async def pos(request, /):
    return h_pos(request)

async def w_ep(websocket):
    await websocket.accept()
    return h_w(websocket)

async def w_two(flag, websocket):
    return h_w_two(flag, websocket)

class Controller:
    async def amethod(self, request):
        return h_amethod(request)
    def smethod(self, request):
        return h_smethod(request)
    async def wmethod(self, websocket):
        return h_wmethod(websocket)

class Asgi:
    def __init__(self, scope, receive, send):
        self.args = (scope, receive, send)
    def __await__(self):
        return self.go().__await__()
    async def go(self):
        h_asgi(*self.args)

class AsgiObj:
    async def __call__(self, scope, receive, send):
        h_asgiobj(scope, receive, send)

class Ep(HTTPEndpoint):
    async def get(self, request):
        return h_get(request)
    def post(self, request):
        return h_post(request)
    def delete(self, request):
        return h_delete(request)

class Head(HTTPEndpoint):
    def get(self, request):
        return h_get(request)
    async def head(self, request):
        return h_head(request)

class Empty(HTTPEndpoint):
    async def post(self, request):
        return h_post(request)

class Outside:
    def __init__(self, app):
        self.app = app
    async def __call__(self, scope, receive, send):
        try:
            await self.app(scope, receive, send)
        except BaseException:
            e_outside()
            raise

def routes():
    c = Controller()
    return {
        "s_mw": Route("/", s_ep, middleware=[Middleware(Outside)]), "a_mw": Route("/", a_ep, methods=["GET", "PUT"], middleware=[Middleware(Outside)]),
        "s_ep": Route("/", s_ep), "a_ep": Route("/", a_ep), "two": Route("/", functools.partial(two, flag=7)),
        "stwo": Route("/", functools.partial(stwo, 7)), "pos": Route("/", pos),
        "amethod": Route("/", c.amethod), "smethod": Route("/", c.smethod),
        "asgi": Route("/", Asgi), "asgiobj": Route("/", AsgiObj()),
    }

def wroutes():
    c = Controller()
    return {
        "w_mw": WebSocketRoute("/", w_ep, middleware=[Middleware(Outside)]),
        "w_ep": WebSocketRoute("/", w_ep), "w_two": WebSocketRoute("/", functools.partial(w_two, 7)),
        "wmethod": WebSocketRoute("/", c.wmethod), "asgi": WebSocketRoute("/", Asgi), "asgiobj": WebSocketRoute("/", AsgiObj()),
    }

def guarded(handlers, route):
    return ExceptionMiddleware(route.handle, handlers)
'''
HOW = {"h_s": "thread", "h_stwo": "thread", "h_smethod": "thread", "h_post": "thread", "h_delete": "thread"}
EP_METHODS = {"Ep": ["GET", "POST", "DELETE"], "Head": ["GET", "HEAD"], "Empty": ["POST"]}
SYNC = {("Ep", "POST"), ("Ep", "DELETE"), ("Head", "GET"), ("Head", "OTHER")}
STD = ["GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"]
RQ, WQ = "starlette.requests.Request", "starlette.websockets.WebSocket"


class Env02(EnvExc):
    def on_receive(self, eng, st, node):
        self.ev(st, "rcv")
        return ok(st, eng.new_dict(st, "connectmsg", {C("type"): C("websocket.connect")}))

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "e_outside":
            self.ev(st, "outside")
            return ok(st, NONE)
        if name.startswith("h_") and not name.startswith("h_err"):
            kw = [x for k, v in sorted(kwargs.items()) for x in (k, v)]
            how = "thread" if st.mon.get("inthread") else "loop"
            self.ev(st, "endpoint", name, tuple(args) + tuple(kw), how)
            st.note(eng.loc(node), f"endpoint {name} ({how})")
            out = ok(st.fork(), S("resp_" + name))
            if self.exc is not None:
                self.ev(st, "appraise", self.exc)
                st.note(eng.loc(node), f"endpoint raises {show(self.exc)}")
                out.append(("raise", st, self.exc))
            return out
        return super().on_call(eng, st, name, args, kwargs, node)

    def thread_call(self, eng, st, args, kwargs, node):
        prev = st.mon.get("inthread", False)
        outs = super().thread_call(eng, st, args, kwargs, node)
        for k, s, v in outs:
            s.mon["inthread"] = prev
        return outs


def entry(eng, st, name, args=()):
    f = eng.force(st, eng.p.lookup_global(eng.p.client, name))
    return [(s, v) for k, s, v in eng.run_call(st, f, list(args)) if k == "ok"]


def run(ctx):
    ctx.rule("invoked", "the endpoint is called exactly once with one connection object on this scope and channels (and its bound arguments)")
    ctx.rule("execution", "coroutine endpoints are awaited on the loop, plain functions run in the thread pool")
    ctx.rule("response", "the endpoint's response is called exactly once with the request's scope, receive and send; its messages reach the server")
    ctx.rule("exception", "an exception of the endpoint is handled once by the handlers of the request, or leaves unchanged")
    ctx.rule("asgi", "a class or ASGI object endpoint is called as an application with the very scope, receive and send")
    ctx.rule("dispatch", "an HTTPEndpoint handles each request by the handler of its method (HEAD by get when there is no head)")
    ctx.rule("not-allowed", "a method the endpoint does not implement is answered 405 with the implemented methods in Allow, through the application's handlers inside an application")
    ctx.client(CLIENT)
    for which, typ in (("routes", "http"), ("wroutes", "websocket")):
        for exc in (None, "builtins.KeyError", "builtins.ValueError", "ext.Cancelled"):
            for guarded in ((False, True) if exc else (False,)):
                functions(ctx, which, typ, exc, guarded)
    for cls in EP_METHODS:
        for inapp in (False, True):
            for exc in (None, "builtins.ValueError"):
                for m in STD + ["TRACE"]:
                    endpoint(ctx, cls, m, inapp, exc)
    if has_fn(ctx.p, "starlette.endpoints.HTTPEndpoint.dispatch"):
        for m in ("DISPATCH", "METHOD_NOT_ALLOWED", "SEND", "__INIT__"):
            endpoint(ctx, "Ep", m, True, None)
    ctx.need("endpoint path", 14)
    ctx.need("handled exception", 10)
    ctx.need("propagating exception", 10)
    ctx.need("method dispatch", 20)
    ctx.need("method refused", 20)


def functions(ctx, which, typ, exc, guarded):
    env = Env02(ctx, (), asyncs=["h_err"])
    eng = ctx.engine(env)
    st0 = eng.start_state()
    prime(st0, ["h_err"])
    for s0, table in entry(eng, st0, which):
        for key, route in list(s0.heap[table].d.items()):
            name = cval(key)
            env.exc = None if exc is None else T("exc", exc, "endpoint")
            lab = f"{name}, {typ}, {'raising ' + exc if exc else 'returning'}{', with handlers' if guarded else ''}: "
            st = s0.fork()
            scope = new_scope(eng, st, typ, method=C("GET"), app=S("application"))
            targets = []
            if guarded:
                h = eng.new_dict(st, "cfg:handlers", {Ext("builtins.LookupError"): S("h_err")})
                targets = entry(eng, st, "guarded", [h, route])
            else:
                st.facts[T("in", C("starlette.exception_handlers"), SCOPE)] = Fact(tr=False)
                targets = [(s, f) for k, s, f in eng.getattr(st, route, "handle", "entry") if k == "ok"]
            for s1, f in targets:
                for k, s, v in eng.run_call(s1, f, [scope, RECEIVE, SEND]):
                    rep = lambda rule, t: eng.report(rule, "starlette.routing", s, lab + t)
                    if name.startswith("asgi"):
                        ctx.oblige("asgi endpoint")
                        eps = [e for e in s.mon.get("ev", ()) if e[0] == "endpoint"]
                        good = len(eps) == 1 and len(eps[0][2]) == 3 and eps[0][2][0] is scope
                        if good and not guarded:
                            good = eps[0][2][1] is RECEIVE and eps[0][2][2] is SEND
                        if not good or eps[0][3] != "loop":
                            rep("asgi", f"called {[(e[1], [show(x) for x in e[2]]) for e in eps]}")
                        continue
                    check2(ctx, eng, s, k, v, name, typ, exc, guarded, scope, env.exc, rep)


def check2(ctx, eng, s, k, v, name, typ, exc, guarded, scope, ev, rep):
    ctx.oblige("endpoint path")
    evs = s.mon.get("ev", ())
    eps = [e for e in evs if e[0] == "endpoint"]
    hname = {"s_ep": "h_s", "a_ep": "h_a", "w_ep": "h_w", "s_mw": "h_s", "a_mw": "h_a", "w_mw": "h_w"}.get(name, "h_" + name)
    if [e[1] for e in eps] != [hname]:
        rep("invoked", f"endpoint called {len(eps)} times")
        return
    args = list(eps[0][2])
    if name in ("two", "stwo", "w_two"):
        if C(7) not in args or len(args) != 2:
            rep("invoked", f"bound argument lost: {[show(x) for x in args]}")
            return
        args.remove(C(7))
    conn = args[0] if len(args) == 1 else None
    cq = RQ if typ == "http" else WQ
    if conn is None or conn.tag != "ref" or eng.type_of(s, conn) != cq:
        rep("invoked", f"called with {[show(x) for x in args]}, not with one {cq.rsplit('.', 1)[1]}")
        return
    sc = [x for _, _, x in eng.getattr(s.fork(), conn, "scope", "attr")]
    if sc != [scope]:
        rep("invoked", "the connection object is not on this scope")
    if typ == "http" and [x for _, _, x in eng.getattr(s.fork(), conn, "receive", "attr")] != [RECEIVE]:
        rep("invoked", "the request does not read from this receive channel")
    pre = [e for e in evs if e[0] in ("rcv", "fwd", "endpoint")]
    if hname == "h_w" and ([e[0] for e in pre[:3]] != ["rcv", "fwd", "endpoint"] or stype(pre[1][1]) != "websocket.accept"):
        rep("invoked", "accepting on the websocket does not use this connection's channels")
    evs = tuple(e for e in evs if not (e[0] == "fwd" and stype(e[1]) == "websocket.accept"))
    how = HOW.get(hname, "loop")
    if eps[0][3] != how:
        rep("execution", f"{'plain function' if how == 'thread' else 'coroutine function'} runs on the {eps[0][3]}")
    raised = any(e[0] == "appraise" for e in evs)
    rs = [e for e in evs if e[0] == "resp" and e[1] == "resp_" + hname]
    hs = [e for e in evs if e[0] == "handler"]
    fwd = [stype(e[1]) for e in evs if e[0] == "fwd"]
    if not raised:
        if hs or k != "ok":
            rep("exception", f"no exception, but ends {k} {show(v)} handlers {len(hs)}")
        if typ == "websocket":
            if rs or fwd:
                rep("response", "something is sent for a websocket endpoint that returned")
            return
        ctx.oblige("response path")
        if len(rs) != 1 or rs[0][2] is not scope or rs[0][3] is not RECEIVE or len(rs[0]) != 5:
            rep("response", f"response called {len(rs)} times / with other arguments")
        elif fwd != ["http.response.start", "http.response.body"]:
            rep("response", f"messages reaching the server: {fwd}")
        return
    if rs:
        rep("response", "a response of an endpoint that raised")
    if guarded and exc == "builtins.KeyError":
        if name.endswith("_mw") and any(e[0] == "outside" for e in evs) and not any(e[0] == "handler-raises" for e in evs):
            rep("exception", "a handled exception passes through the middleware of the route")
        ctx.oblige("handled exception")
        if len(hs) != 1 or hs[0][2][0] is not conn and eng.type_of(s, hs[0][2][0]) != cq or hs[0][2][1] is not ev:
            rep("exception", f"handler called {len(hs)} times / with other arguments")
        if any(e[0] == "handler-raises" for e in evs):
            if k != "raise" or v is not T("exc", "builtins.ZeroDivisionError", "handler"):
                rep("exception", "an exception of the handler does not leave")
        elif k != "ok":
            rep("exception", f"handled exception, but {k} {show(v)}")
        return
    ctx.oblige("propagating exception")
    if hs or k != "raise" or v is not ev or fwd:
        rep("exception", f"no handler applies: ends {k} {show(v)}, handlers {len(hs)}, sent {fwd}")


def endpoint(ctx, cls, method, inapp, exc):
    env = Env02(ctx, (), asyncs=["h_err"])
    env.exc = None if exc is None else T("exc", exc, "endpoint")
    eng = ctx.engine(env)
    st = eng.start_state()
    have = EP_METHODS[cls]
    ci = eng.p.cls("client." + cls)
    extra = {"app": S("application")} if inapp else {}
    st.facts[S("application")] = Fact(tr=True, ne=frozenset([NONE]))
    scope = new_scope(eng, st, "http", method=C(method), **extra)
    if not inapp:
        st.facts[T("in", C("app"), SCOPE)] = Fact(tr=False)
    lab = f"{cls} {method}{' in an application' if inapp else ''}{' raising' if exc else ''}: "
    want = "GET" if method == "HEAD" and "HEAD" not in have and "GET" in have else method
    std = method in STD or method == "TRACE"
    for k, s, v in eng.run_call(st, Cls(ci), [scope, RECEIVE, SEND]):
        rep = lambda rule, t: eng.report(rule, "starlette.endpoints.HTTPEndpoint", s, lab + t)
        evs = s.mon.get("ev", ())
        eps = [e for e in evs if e[0] == "endpoint"]
        fwd = [e[1] for e in evs if e[0] == "fwd"]
        if want in have:
            ctx.oblige("method dispatch")
            h = "h_" + want.lower()
            if [e[1] for e in eps] != [h]:
                rep("dispatch", f"{[e[1] for e in eps]} called")
                continue
            a = eps[0][2]
            if len(a) != 1 or a[0].tag != "ref" or eng.type_of(s, a[0]) != RQ or [x for _, _, x in eng.getattr(s.fork(), a[0], "scope", "attr")] != [scope]:
                rep("invoked", f"handler called with {[show(x) for x in a]}")
            sync = (cls, want) in (("Ep", "POST"), ("Ep", "DELETE"), ("Head", "GET"))
            if eps[0][3] != ("thread" if sync else "loop"):
                rep("execution", f"{'plain' if sync else 'coroutine'} handler runs on the {eps[0][3]}")
            rs = [e for e in evs if e[0] == "resp"]
            if any(e[0] == "appraise" for e in evs):
                if rs or fwd or k != "raise" or v is not env.exc:
                    rep("exception", f"handler raised: ends {k} {show(v)}")
            elif k != "ok" or len(rs) != 1 or rs[0][1] != "resp_" + h or rs[0][2] is not scope or rs[0][3] is not RECEIVE or rs[0][4] is not SEND:
                rep("response", f"ends {k}, response called {len(rs)} times")
            continue
        ctx.oblige("method refused")
        if eps:
            rep("dispatch", f"handlers {[e[1] for e in eps]} called for a method without handler")
            continue
        if inapp:
            good = k == "raise" and v.tag == "ref" and eng.type_of(s, v) == HTTP and not fwd
            if good:
                at = lambda n: [x for _, _, x in eng.getattr(s.fork(), v, n, "attr")]
                good = at("status_code") == [C(405)]
                h = at("headers")[0]
                allow = next((x for kk, x in s.heap[h].d.items() if is_c(kk) and str(cval(kk)).lower() == "allow"), NONE) if h.tag == "ref" and s.heap[h].kind == "dict" else NONE
            if not good:
                rep("not-allowed" if std else "only-handlers", f"ends {k} {show(v)} instead of HTTPException(405)")
                continue
        else:
            if k != "ok" or [stype(x) for x in fwd] != ["http.response.start", "http.response.body"] or sfield(fwd[0], "status") is not C(405):
                rep("not-allowed" if std else "only-handlers", f"ends {k}, sent {[stype(x) for x in fwd]}")
                continue
            from .c16 import header_of
            allow = header_of(fwd[0], b"allow")
            allow = C(cval(allow).decode()) if allow is not None and is_c(allow) else NONE
        names = set(x.strip() for x in cval(allow).split(",")) if is_c(allow) and isinstance(cval(allow), str) else set()
        if not set(have) <= names or not names <= set(have) | {"HEAD"}:
            rep("not-allowed" if std else "only-handlers", f"Allow is {show(allow)}, implemented are {have}")
