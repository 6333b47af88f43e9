"""Path analysis of middleware stacks: applications, routers, routes and mounts.

Client programs configure applications with recording middleware (constructor arguments, add_middleware, shared lists), error
handlers and failing endpoints and serve requests with a symbolic server.  On every path the order in which middleware,
endpoint and error handlers are entered and left (normally or by an exception), how often each middleware was built, with
which arguments and around what, must be exactly what the documentation promises.
"""
from ..mw import *
from .common import *

CLIENT08 = '''
from starlette.applications import Starlette
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.responses import PlainTextResponse
from starlette.routing import Route, WebSocketRoute, Mount, Router

class M:
    def __init__(self, app, name, flag=None, **more):
        self.app = app
        self.name = name
        mark("init " + name, flag, more)

    async def __call__(self, scope, receive, send):
        mark("in " + self.name, scope)
        if self.name == "raises":
            raise HTTPException(status_code=404)
        if self.name == "breaks":
            raise ValueError("x")
        try:
            await self.app(scope, receive, send)
        except BaseException:
            mark("raise " + self.name)
            raise
        mark("out " + self.name)

def factory(app, name):
    return M(app, name)

class Late(Exception):
    pass

class Sub(Late):
    pass

async def ep(request):
    mark("ep", request.scope)
    return PlainTextResponse("x")

async def ep_404(request):
    mark("ep")
    raise HTTPException(status_code=404)

async def ep_sub(request):
    mark("ep")
    raise Sub()

async def ep_key(request):
    mark("ep")
    raise KeyError("x")

async def ws(websocket):
    mark("ws")

async def inner(scope, receive, send):
    mark("inner", scope)

async def h404(request, exc):
    mark("h404")
    return PlainTextResponse("x", status_code=404)

async def hlate(request, exc):
    mark("hlate")
    return PlainTextResponse("x", status_code=400)

async def h500(request, exc):
    mark("h500")
    return PlainTextResponse("x", status_code=500)

def routes():
    return [Route("/", ep), Route("/404", ep_404), Route("/sub", ep_sub), Route("/key", ep_key), WebSocketRoute("/ws", ws)]

def handlers():
    return {404: h404, Late: hlate, 500: h500}

def order(handlers):
    app = Starlette(routes=routes(), middleware=[Middleware(M, "a", flag=1), Middleware(M, name="b", other=0)], exception_handlers=handlers)
    app.add_middleware(M, "c")
    app.add_middleware(factory, name="d")
    return app

def plain(handlers):
    return Starlette(routes=routes(), exception_handlers=handlers)

def by_class(handlers):
    return Starlette(routes=routes(), middleware=[Middleware(M, "a")], exception_handlers={Exception: h500})

def added_handlers(handlers):
    app = Starlette(routes=routes(), middleware=[Middleware(M, "a")])
    app.add_exception_handler(404, h404)
    app.add_exception_handler(Late, hlate)
    app.add_exception_handler(500, h500)
    return app

def raising(handlers):
    return Starlette(routes=routes(), middleware=[Middleware(M, "a"), Middleware(M, "raises")], exception_handlers=handlers)

def breaking(handlers):
    return Starlette(routes=routes(), middleware=[Middleware(M, "a"), Middleware(M, "breaks")], exception_handlers=handlers)

def first_raises(handlers):
    return Starlette(routes=routes(), middleware=[Middleware(M, "raises"), Middleware(M, "b")], exception_handlers=handlers)

def debugging(handlers):
    return Starlette(debug=True, routes=routes(), middleware=[Middleware(M, "a")], exception_handlers=handlers)

def late_route(handlers):
    app = Starlette(middleware=[Middleware(M, "a")], exception_handlers=handlers)
    app.add_route("/", ep)
    return app

def two_args(handlers):
    return Starlette(routes=routes(), middleware=(Middleware(M, "a"), Middleware(M, "b")), exception_handlers=handlers)

async def serve(app, scope, receive, send):
    await app(scope, receive, send)

async def twice(app, scope, receive, send, scope2):
    await app(scope, receive, send)
    mark("next")
    await app(scope2, receive, send)

async def refuse(app, scope, receive, send, scope2):
    await app(scope, receive, send)
    try:
        app.add_middleware(M, "late")
    except RuntimeError:
        mark("refused")
    else:
        mark("accepted")
    await app(scope2, receive, send)

async def shared(handlers, scope, receive, send):
    mws = [Middleware(M, "a")]
    first = Starlette(routes=routes(), middleware=mws, exception_handlers=handlers)
    second = Starlette(routes=routes(), middleware=mws, exception_handlers=handlers)
    first.add_middleware(M, "first")
    first.add_exception_handler(404, hlate)
    first.add_exception_handler(KeyError, hlate)
    mws.append(Middleware(M, "later"))
    mark("same" if len(mws) == 2 and len(handlers) == 3 else "changed")
    await second(scope, receive, send)

def router(kind):
    return Router(routes=routes(), middleware=[Middleware(M, "a", flag=1), Middleware(factory, "b")])

def route(kind):
    return Router(routes=[Route("/", ep, middleware=[Middleware(M, "a"), Middleware(M, "b")]), Route("/key", ep_key, middleware=[Middleware(M, "c")])])

def wsroute(kind):
    return Router(routes=[WebSocketRoute("/ws", ws, middleware=[Middleware(M, "a"), Middleware(M, "b")])])

def mount(kind):
    return Router(routes=[Mount("/m", app=inner, middleware=[Middleware(M, "a"), Middleware(M, "b")]), Mount("/n", routes=[Route("/x", ep)], middleware=[Middleware(M, "c")])])

def nested(kind):
    return Starlette(
        routes=[Mount("/n", routes=[Route("/x", ep, middleware=[Middleware(M, "route")])], middleware=[Middleware(M, "mount")])],
        middleware=[Middleware(M, "app")],
    )
'''
A, AM = "starlette.applications.Starlette", "starlette.applications.Starlette.add_middleware"


def wrap(names, *inside, end="out"):
    return [f"in {n}" for n in names] + list(inside) + [f"{end} {n}" for n in reversed(names)]


class Env08(MwEnv):
    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "mark":
            a = [snap(eng, st, x) if x.tag == "ref" and st.heap[x].kind == "dict" and i == 0 else x for i, x in enumerate(args[1:])]
            self.ev(st, "mark", cval(args[0]) if is_c(args[0]) else show(args[0]), *a)
            return ok(st, NONE)
        return super().on_call(eng, st, name, args, kwargs, node)

    def thread_call(self, eng, st, args, kwargs, node):
        return [(k, s, aw("value", v) if k == "ok" else v) for k, s, v in eng.call(st, args[0], list(args[1:]), kwargs, node)]

    def aw_value(self, eng, st, args, node):
        return ok(st, args[0])

    def on_send(self, eng, st, msg, node):
        t = stype(snap(eng, st, msg))
        if t in ("http.response.start", "websocket.close"):
            self.ev(st, "mark", "start")


# application, path, marks with start = response start reaching the server, does an exception leave?
CASES = [
    ("order", "/", wrap("dcab", "ep", "start"), None),
    ("order", "/404", wrap("dcab", "ep", "h404", "start"), None),
    ("order", "/nowhere", wrap("dcab", "h404", "start"), None),
    ("order", "/sub", wrap("dcab", "ep", "hlate", "start"), None),
    ("order", "/key", wrap("dcab", "ep", end="raise") + ["h500", "start"], "KeyError"),
    ("plain", "/", ["ep", "start"], None),
    ("plain", "/404", ["ep", "h404", "start"], None),
    ("plain", "/key", ["ep", "h500", "start"], "KeyError"),
    ("by_class", "/404", wrap("a", "ep", "start"), None),
    ("by_class", "/key", wrap("a", "ep", end="raise") + ["h500", "start"], "KeyError"),
    ("added_handlers", "/404", wrap("a", "ep", "h404", "start"), None),
    ("added_handlers", "/sub", wrap("a", "ep", "hlate", "start"), None),
    ("added_handlers", "/key", wrap("a", "ep", end="raise") + ["h500", "start"], "KeyError"),
    ("raising", "/", ["in a", "in raises", "raise a", "h500", "start"], "starlette.exceptions.HTTPException"),
    ("breaking", "/", ["in a", "in breaks", "raise a", "h500", "start"], "ValueError"),
    ("first_raises", "/", ["in raises", "h500", "start"], "starlette.exceptions.HTTPException"),
    ("debugging", "/key", wrap("a", "ep", end="raise") + ["start"], "KeyError"),
    ("debugging", "/404", wrap("a", "ep", "h404", "start"), None),
    ("late_route", "/", wrap("a", "ep", "start"), None),
    ("two_args", "/", wrap("ab", "ep", "start"), None),
]
INITS = {"order": ["init a", "init b", "init c", "init d"], "plain": [], "two_args": ["init a", "init b"]}
ROUTERS = [
    ("router", "http", "/", wrap("ab", "ep", "start"), None),
    ("router", "http", "/key", wrap("ab", "ep", end="raise"), "KeyError"),
    ("router", "http", "/nowhere", wrap("ab", "start"), None),
    ("router", "websocket", "/ws", wrap("ab", "ws"), None),
    ("route", "http", "/", wrap("ab", "ep", "start"), None),
    ("route", "http", "/key", wrap("c", "ep", end="raise"), "KeyError"),
    ("route", "http", "/nowhere", ["start"], None),
    ("wsroute", "websocket", "/ws", wrap("ab", "ws"), None),
    ("wsroute", "websocket", "/", ["start"], None),
    ("mount", "http", "/m/y", wrap("ab", "inner"), None),
    ("mount", "websocket", "/m/y", wrap("ab", "inner"), None),
    ("mount", "http", "/n/x", wrap("c", "ep", "start"), None),
    ("mount", "http", "/n/y", wrap("c", "start"), None),
    ("mount", "http", "/o", ["start"], None),
    ("nested", "http", "/n/x", wrap(["app", "mount", "route"], "ep", "start"), None),
    ("nested", "http", "/n/y", wrap(["app", "mount"], end="raise", ) [:0] + ["in app", "in mount", "raise mount", "start", "out app"], None),
]


def run(ctx):
    ctx.rule("order", "user middleware wraps in the listed order, added middleware outside of it, the latest outermost; inside are the exception handlers and the router, outside the server error handler")
    ctx.rule("once", "every middleware is built exactly once per application, with the arguments it was declared with")
    ctx.rule("errors", "status and class handlers see what the endpoint raised before any middleware does; the 500 / Exception handler what leaves all middleware, which is raised again")
    ctx.rule("refused", "adding middleware to an application that has served is refused and changes nothing")
    ctx.rule("own", "an application neither changes nor shares the middleware list and handler mapping it was given")
    ctx.rule("scope-app", "scope['app'] is the application in every middleware and endpoint")
    ctx.rule("every-kind", "http, websocket and lifespan connections pass the same middleware")
    ctx.rule("local", "middleware of a router, route, websocket route or mount wraps exactly that, listed order outermost first")
    ctx.client(CLIENT08)
    env = Env08()
    eng = ctx.engine(env)
    eng.maxrec = 8
    for name, path, want, exc in CASES:
        serve(ctx, eng, name, path, want, exc)
    for how in ("twice", "refuse"):
        again(ctx, eng, how)
    shared(ctx, eng)
    for name, typ, path, want, exc in ROUTERS:
        local(ctx, eng, name, typ, path, want, exc)
    for typ in ("websocket", "lifespan"):
        kinds(ctx, eng, typ)
    ctx.need("served", 23)
    ctx.need("second request", 12)
    ctx.need("local", 14)
    ctx.need("kinds", 2)


def call(eng, st, name, args):
    return eng.run_call(st, eng.force(st, eng.p.lookup_global(eng.p.client, name)), args)


def apps(eng, name, arg=True):
    st = eng.start_state()
    hs = NONE
    if arg:
        for k, st, hs in call(eng, st, "handlers", []):
            break
    outs = call(eng, st, name, [hs])
    for k, s, v in outs:
        if k == "raise":
            eng.report("once", "starlette.middleware.Middleware", s, f"configuration '{name}' cannot be built: {raised(eng, s, k, v)}")
    return [(s, v) for k, s, v in outs if k == "ok"]


def request(eng, st, typ="http", path="/"):
    for key in ("path_params", "app_root_path", "router", "app", "root_path", "endpoint", "extensions", "state", "starlette.exception_handlers"):
        st.facts[T("in", C(key), SCOPE)] = Fact(tr=False)
    extra = {"path": C(path), "headers": eng.new_list(st, "hdrs" + path, [])} if typ != "lifespan" else {}
    if typ == "http":
        extra["method"] = C("GET")
    return new_scope(eng, st, typ, **extra)


def marks(s, inits=False):
    return [e[1] for e in events(s, "mark") if e[1].startswith("init ") == inits]


def raised(eng, s, k, v):
    if k != "raise":
        return None
    return (eng.type_of(s, v) or "?").replace("builtins.", "")


def answer(ctx, eng, s, k, v, want, exc, rep):
    got = marks(s)
    if got != want:
        rep(f"happens: {', '.join(got)}; expected: {', '.join(want)}")
    r = raised(eng, s, k, v)
    if r != exc:
        rep(f"{r or 'nothing'} is raised to the server, expected {exc or 'nothing'}")


def app_of(eng, s, app, rep):
    for e in events(s, "mark"):
        if len(e) > 2 and isinstance(e[2], V) and e[2].tag == "snap" and (e[1].startswith("in ") or e[1] == "ep"):
            if sfield(e[2], "app") is not app:
                rep("scope-app", f"at '{e[1]}', scope['app'] is {show(sfield(e[2], 'app', NONE))}")


def serve(ctx, eng, name, path, want, exc):
    for st, app in apps(eng, name):
        scope = request(eng, st, "http", path)
        for k, s, v in call(eng, st, "serve", [app, scope, RECEIVE, SEND]):
            rep = lambda text, rule="order" if exc is None and path == "/" else "errors": eng.report(rule, A + ".__call__", s, f"application '{name}', {path}: " + text)
            ctx.oblige("served")
            answer(ctx, eng, s, k, v, want, exc, rep)
            app_of(eng, s, app, lambda rule, text: eng.report(rule, A + ".__call__", s, f"application '{name}', {path}: " + text))
            inits(eng, s, name)


def inits(eng, s, name):
    if name not in INITS:
        return
    rep = lambda text: eng.report("once", A + ".build_middleware_stack", s, f"application '{name}': " + text)
    got = marks(s, True)
    if sorted(got) != INITS[name]:
        rep(f"middleware built: {', '.join(sorted(got))}, expected {', '.join(INITS[name])}")
    if name == "order":
        for e in events(s, "mark"):
            if e[1] == "init a" and e[2] is not C(1) or e[1] in ("init c", "init d") and e[2] is not NONE:
                rep(f"{e[1]} gets flag {show(e[2])}")
            if e[1].startswith("init "):
                more = {cval(a): b for a, b in s.heap[e[3]].d.items()} if e[3].tag == "ref" else None
                if more != ({"other": C(0)} if e[1] == "init b" else {}):
                    rep(f"{e[1]} gets other options {more}")


def again(ctx, eng, how):
    """two requests, with and without an attempt to add middleware in between"""
    for path1, first, e1 in (("/", wrap("dcab", "ep", "start"), None), ("/404", wrap("dcab", "ep", "h404", "start"), None)):
        for path2, second, e2 in (("/sub", wrap("dcab", "ep", "hlate", "start"), None), ("/", wrap("dcab", "ep", "start"), None), ("/key", wrap("dcab", "ep", end="raise") + ["h500", "start"], "KeyError")):
            for st, app in apps(eng, "order"):
                a, b = request(eng, st, "http", path1), request(eng, st, "http", path2)
                if a is b:
                    continue
                for k, s, v in call(eng, st, how, [app, a, RECEIVE, SEND, b]):
                    rule = "refused" if how == "refuse" else "once"
                    rep = lambda text: eng.report(rule, AM if how == "refuse" else A + ".__call__", s, f"{path1} then {path2}: " + text)
                    ctx.oblige("second request")
                    answer(ctx, eng, s, k, v, first + ["refused" if how == "refuse" else "next"] + second, e2, rep)
                    app_of(eng, s, app, lambda rule, text: eng.report(rule, A + ".__call__", s, f"{path1} then {path2}: " + text))
                    inits(eng, s, "order")


def shared(ctx, eng):
    for path, want, exc in (("/", wrap("a", "ep", "start"), None), ("/404", wrap("a", "ep", "h404", "start"), None), ("/key", wrap("a", "ep", end="raise") + ["h500", "start"], "KeyError")):
        st = eng.start_state()
        for k, s, hs in call(eng, st, "handlers", []):
            scope = request(eng, s, "http", path)
            for k, s2, v in call(eng, s, "shared", [hs, scope, RECEIVE, SEND]):
                ctx.oblige("served")
                answer(ctx, eng, s2, k, v, ["same"] + want, exc, lambda text: eng.report("own", A, s2, f"two applications from the same list and handlers, {path}: " + text))


def local(ctx, eng, name, typ, path, want, exc):
    for st, app in apps(eng, name, False):
        scope = request(eng, st, typ, path)
        for k, s, v in call(eng, st, "serve", [app, scope, RECEIVE, SEND]):
            ctx.oblige("local")
            answer(ctx, eng, s, k, v, want, exc, lambda text: eng.report("local", "starlette.routing", s, f"{name}, {typ} {path}: " + text))


def kinds(ctx, eng, typ):
    for st, app in apps(eng, "order"):
        scope = request(eng, st, typ, "/ws")
        for k, s, v in call(eng, st, "serve", [app, scope, RECEIVE, SEND]):
            ctx.oblige("kinds")
            got = [m for m in marks(s) if m.startswith("in ")]
            if got != [f"in {n}" for n in "dcab"]:
                eng.report("every-kind", A + ".__call__", s, f"a {typ} connection passes {', '.join(got) or 'no middleware'}")
            app_of(eng, s, app, lambda rule, text: eng.report(rule, A + ".__call__", s, f"{typ}: " + text))
