"""Every way of registering something has exactly the effect of the documented one, in the order of registration.

A client program registers endpoints, sub-applications, hosts, event handlers, exception handlers and middleware on Starlette and Router objects through
constructors, methods and decorators, with every combination of optional arguments in a table.  The analysed code is interpreted on these constants; the
route table that results (kind, path, endpoint, methods, name, schema flag, order), what requests, sessions and the lifespan then get, the value a
decorator returns and the warnings issued are compared with what the documentation says about the arguments.
"""
from ..mw import *
from .c20 import value
from ..tasks import ASYNC_SRC
from .c24 import Env24
from .c30 import call, lit
from .common import *

CLIENT29 = ASYNC_SRC + '''
import functools
from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

async def page(request):
    return PlainTextResponse("page " + request.method)

def plain(request):
    return PlainTextResponse("plain " + request.method)

async def item(request):
    return PlainTextResponse("item " + request.path_params["id"])

async def missing(request):
    raise HTTPException(status_code=404)

async def broken(request):
    raise KeyError("x")

class Thing(HTTPEndpoint):
    async def get(self, request):
        return PlainTextResponse("thing")

class Views:
    async def view(self, request):
        return PlainTextResponse("view " + request.method)

class Callable:
    async def __call__(self, scope, receive, send):
        response = PlainTextResponse("callable " + scope["method"])
        await response(scope, receive, send)

async def with_more(request, more):
    return PlainTextResponse("partial " + more)

views = Views()
bound = views.view
part = functools.partial(with_more, more="m")
obj = Callable()

async def talk(websocket):
    await websocket.accept()
    await websocket.send_text("talk")
    await websocket.close()

class Sock(WebSocketEndpoint):
    async def on_connect(self, websocket):
        await websocket.accept()
        await websocket.send_text("sock")
        await websocket.close()

async def sub(scope, receive, send):
    response = PlainTextResponse("sub " + scope["path"] + " in " + scope["root_path"])
    await response(scope, receive, send)

def endpoints():
    return {"page": page, "plain": plain, "item": item, "missing": missing, "broken": broken, "Thing": Thing, "view": bound, "part": part, "obj": obj, "talk": talk, "Sock": Sock, "sub": sub}

class Header:
    def __init__(self, app, value, more="-"):
        self.app = app
        self.value = value
        self.more = more
    async def __call__(self, scope, receive, send):
        async def outer(message):
            if message["type"] == "http.response.start":
                message["headers"].append((b"x-order", (self.value + self.more).encode()))
            await send(message)
        await self.app(scope, receive, outer)

async def dispatch_a(request, call_next):
    response = await call_next(request)
    response.headers.append("x-order", "a")
    return response

async def dispatch_b(request, call_next):
    response = await call_next(request)
    response.headers.append("x-order", "b")
    return response

async def on_key(request, exc):
    return PlainTextResponse("key error", status_code=400)

def on_404(request, exc):
    return PlainTextResponse("not here", status_code=404)

async def on_other_404(request, exc):
    return PlainTextResponse("really not here", status_code=404)

def handlers():
    return {"on_key": on_key, "on_404": on_404, "on_other_404": on_other_404, "dispatch_a": dispatch_a, "dispatch_b": dispatch_b}

class Log:
    def __init__(self):
        self.items = []
    def up(self):
        self.items.append("up")
    async def up_async(self):
        self.items.append("up_async")
    def down(self):
        self.items.append("down")
    async def down_async(self):
        self.items.append("down_async")

def register(target, how, args, kwargs):
    fs = endpoints()
    same = None
    if how in ("route", "websocket_route"):
        f = fs[args[1]]
        same = getattr(target, how)(args[0], **kwargs)(f) is f
    else:
        same = getattr(target, how)(args[0], fs[args[1]], **kwargs) is None
    return same

def construct(how, args, kwargs):
    f = endpoints()[args[1]]
    if how == "Route":
        return Route(args[0], f, **kwargs)
    if how == "WebSocketRoute":
        return WebSocketRoute(args[0], f, **kwargs)
    if how == "Mount":
        return Mount(args[0], f, **kwargs)
    return Host(args[0], f, **kwargs)

def target_of(kind, routes):
    if kind == "app":
        return Starlette(routes=routes)
    if kind == "router":
        return Router(routes=routes)
    if kind == "bare app":
        return Starlette()
    return Router()

def describe(route):
    kind = route.__class__.__name__
    fs = endpoints()
    if kind == "Mount":
        return [kind, route.path, [k for k in fs if fs[k] is route.app], route.name]
    if kind == "Host":
        return [kind, route.host, [k for k in fs if fs[k] is route.app], route.name]
    if kind == "WebSocketRoute":
        return [kind, route.path, [k for k in fs if fs[k] is route.endpoint], route.name]
    return [kind, route.path, [k for k in fs if fs[k] is route.endpoint], None if route.methods is None else sorted(route.methods), route.name, route.include_in_schema]

def scope_of(typ, method, host, path):
    scope = {"type": typ, "path": path, "query_string": b"", "headers": [(b"host", host.encode())], "scheme": "ws" if typ == "websocket" else "http", "server": ("h", 80), "client": ("c", 1), "root_path": ""}
    if typ == "http":
        scope["method"] = method
    return scope

async def ask(app, req):
    typ, method, host, path = req
    queue = [{"type": "http.request", "body": b"", "more_body": False}] if typ == "http" else [{"type": "websocket.connect"}]
    sent = []
    async def receive():
        if queue:
            return queue.pop(0)
        return {"type": typ + ".disconnect", "code": 1000}
    async def send(message):
        sent.append(message)
    try:
        await app(scope_of(typ, method, host, path), receive, send)
    except Exception as exc:
        sent.append({"type": "raised", "class": exc.__class__.__name__})
    if typ == "websocket":
        return [m.get("text") for m in sent if m["type"] == "websocket.send"]
    return [[m.get("status") for m in sent if m["type"] == "http.response.start"], b"".join([m.get("body", b"") for m in sent if m["type"] == "http.response.body"]),
            [v for m in sent if m["type"] == "http.response.start" for k, v in m["headers"] if k == b"x-order"]]

async def table(kind, given, adds, asks, early):
    routes = [construct(*x) for x in given]
    target = target_of(kind, routes)
    if early:
        await ask(target, early)
    results = [register(target, *x) for x in adds]
    answers = []
    for req in asks:
        answers.append(await ask(target, req))
    return [[describe(r) for r in target.routes], results, answers, len(routes)]

async def handled(given, adds, asks):
    hs = handlers()
    app = Starlette(routes=[Route("/missing", missing), Route("/broken", broken), Route("/page", page)], exception_handlers=None if given is None else {KeyError if k == "key" else 404: hs[v] for k, v in given})
    results = []
    for how, key, name in adds:
        what = KeyError if key == "key" else 404
        if how == "method":
            results.append(app.add_exception_handler(what, hs[name]) is None)
        else:
            results.append(app.exception_handler(what)(hs[name]) is hs[name])
    answers = []
    for req in asks:
        answers.append(await ask(app, req))
    return [results, answers]

async def layered(given, adds, req):
    hs = handlers()
    app = Starlette(routes=[Route("/page", page)], middleware=None if given is None else [Middleware(Header, *a, **k) for a, k in given])
    results = []
    for how, args, kwargs in adds:
        if how == "method":
            results.append(app.add_middleware(Header, *args, **kwargs) is None)
        else:
            results.append(app.middleware("http")(hs[args[0]]) is hs[args[0]])
    return [results, await ask(app, req)]

async def lived(kind, given_up, given_down, adds):
    log = Log()
    f = {"up": log.up, "up_async": log.up_async, "down": log.down, "down_async": log.down_async}
    kwargs = {}
    if given_up is not None:
        kwargs["on_startup"] = [f[n] for n in given_up]
    if given_down is not None:
        kwargs["on_shutdown"] = [f[n] for n in given_down]
    target = Starlette(**kwargs) if kind == "app" else Router(**kwargs)
    results = []
    for how, event, name in adds:
        if how == "method":
            results.append(target.add_event_handler(event, f[name]) is None)
        else:
            g = f[name]
            results.append(target.on_event(event)(g) is g)
    queue = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
    sent = []
    async def receive():
        log.items.append("-")
        return queue.pop(0)
    async def send(message):
        sent.append(message["type"])
    await target({"type": "lifespan", "app": target, "state": {}}, receive, send)
    return [results, log.items, sent]

def refused(kind, how, args):
    target = target_of("bare " + kind, None)
    try:
        getattr(target, how)(*args)
    except AssertionError:
        return "refused"
    except Exception as exc:
        return exc.__class__.__name__
    return "accepted"

def thing_of(spec):
    how, args, kwargs = spec
    if how == "Router":
        return Router(routes=[construct(*x) for x in args])
    return construct(how, args, kwargs)

def compared(one, other):
    a, b = thing_of(one), thing_of(other)
    return [a == b, a != b, b == a, a == "/a", a == None]

def shown(how, args, kwargs):
    return repr(construct(how, args, kwargs))

def built(how, args, kwargs):
    try:
        route = construct(how, args, kwargs)
    except AssertionError:
        return "refused"
    return describe(route)
'''


class Env29(Env24):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "warnings.warn":
            cat = kwargs.get("category", args[1] if len(args) > 1 else None)
            st.mon["warned"] = st.mon.get("warned", ()) + (show(cat) if cat is not None else "UserWarning",)
            return ok(st, NONE)
        return super().on_ext(eng, st, q, args, kwargs, node)


def play(ctx, fn, *args):
    eng = ctx.engine(Env29())
    eng.concrete = 60
    eng.max_steps = 400_000
    eng.models = {k: v for k, v in eng.models.items() if not k.startswith(("starlette.datastructures.Headers.", "starlette.datastructures.MutableHeaders."))}
    st = eng.start_state()
    return eng, [(k, s, value(s, v) if isinstance(v, V) else v) for k, s, v in call(ctx, eng, st, fn, [lit(eng, st, a) for a in args])]


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


class Judge:
    def __init__(self, ctx):
        self.ctx = ctx

    def play(self, what, fn, *args):
        eng, outs = play(self.ctx, fn, *args)
        if len(outs) > 1:      # external calls may raise anything, but everything here is constant
            outs = [o for o in outs if not any(" raises " in x for x in o[1].path())] or outs
        if len(outs) != 1:
            if any("<" in repr(v) for k, s, v in outs):
                self.ctx.undecided(f"{what}: {len(outs)} outcomes")
                return eng, None, None
        k, s, v = outs[0]
        self.ctx.oblige("play")
        if k != "ok":
            eng.report("registered", "registration", s, f"{what}: {k} {str(v)[:80]}")
            return eng, s, None
        return eng, s, plain(v)

    def eq(self, rule, eng, s, what, got, want):
        self.ctx.oblige("value")
        if plain(got) != plain(want):
            eng.report(rule, "registration", s, f"{what}: {str(got)[:200]} instead of {str(want)[:200]}")

    def warned(self, eng, s, what, n):
        """n deprecation warnings, and no others"""
        got = [w.rsplit(".", 1)[-1].strip("<>") for w in s.mon.get("warned", ())]
        self.eq("warned", eng, s, f"{what}: warnings", got, ["DeprecationWarning"] * n)


GET = ["GET", "HEAD"]
# (constructor, method, decorator), arguments, keyword arguments, description, requests and their answers
HTTP = ("Route", "add_route", "route")
WS = ("WebSocketRoute", "add_websocket_route", "websocket_route")
ROWS = [
    (HTTP, ("/a", "page"), {}, ["Route", "/a", ["page"], GET, "page", True], [(("http", "GET", "h", "/a"), 200, b"page GET"), (("http", "HEAD", "h", "/a"), 200, b"page HEAD"), (("http", "POST", "h", "/a"), 405, b"Method Not Allowed")]),
    (HTTP, ("/a", "plain"), {"methods": ["post"]}, ["Route", "/a", ["plain"], ["POST"], "plain", True], [(("http", "POST", "h", "/a"), 200, b"plain POST"), (("http", "GET", "h", "/a"), 405, b"Method Not Allowed")]),
    (HTTP, ("/a", "page"), {"methods": ["PUT", "get"], "name": "other"}, ["Route", "/a", ["page"], ["GET", "HEAD", "PUT"], "other", True], [(("http", "PUT", "h", "/a"), 200, b"page PUT"), (("http", "HEAD", "h", "/a"), 200, b"page HEAD")]),
    (HTTP, ("/a/{id}", "item"), {"include_in_schema": False}, ["Route", "/a/{id}", ["item"], GET, "item", False], [(("http", "GET", "h", "/a/7"), 200, b"item 7"), (("http", "GET", "h", "/a"), 404, b"Not Found")]),
    (HTTP, ("/a", "Thing"), {}, ["Route", "/a", ["Thing"], None, "Thing", True], [(("http", "GET", "h", "/a"), 200, b"thing"), (("http", "PUT", "h", "/a"), 405, b"Method Not Allowed")]),
    (HTTP, ("/a", "Thing"), {"methods": ["PUT"], "name": "t", "include_in_schema": False}, ["Route", "/a", ["Thing"], ["PUT"], "t", False], [(("http", "GET", "h", "/a"), 405, b"Method Not Allowed")]),
    (HTTP, ("/a", "view"), {}, ["Route", "/a", ["view"], GET, "view", True], [(("http", "GET", "h", "/a"), 200, b"view GET"), (("http", "PUT", "h", "/a"), 405, b"Method Not Allowed")]),
    (HTTP, ("/a", "part"), {"name": "p"}, ["Route", "/a", ["part"], GET, "p", True], [(("http", "GET", "h", "/a"), 200, b"partial m"), (("http", "PUT", "h", "/a"), 405, b"Method Not Allowed")]),
    (HTTP, ("/a", "obj"), {}, ["Route", "/a", ["obj"], None, "Callable", True], [(("http", "GET", "h", "/a"), 200, b"callable GET"), (("http", "PUT", "h", "/a"), 200, b"callable PUT")]),
    (WS, ("/w", "talk"), {}, ["WebSocketRoute", "/w", ["talk"], "talk"], [(("websocket", "", "h", "/w"), ["talk"]), (("http", "GET", "h", "/w"), 404, b"Not Found")]),
    (WS, ("/w", "Sock"), {"name": "s"}, ["WebSocketRoute", "/w", ["Sock"], "s"], [(("websocket", "", "h", "/w"), ["sock"])]),
    (("Mount", "mount"), ("/m", "sub"), {}, ["Mount", "/m", ["sub"], None], [(("http", "PUT", "h", "/m/x"), 200, b"sub /m/x in /m")]),
    (("Mount", "mount"), ("/m/", "sub"), {"name": "sub"}, ["Mount", "/m", ["sub"], "sub"], [(("http", "GET", "h", "/m/x"), 200, b"sub /m/x in /m")]),
    (("Host", "host"), ("a.test", "sub"), {}, ["Host", "a.test", ["sub"], None], [(("http", "GET", "a.test", "/x"), 200, b"sub /x in "), (("http", "GET", "b.test", "/x"), 404, b"Not Found")]),
    (("Host", "host"), ("{s}.test", "sub"), {"name": "sub"}, ["Host", "{s}.test", ["sub"], "sub"], [(("http", "GET", "c.test", "/x"), 200, b"sub /x in ")]),
]


def answer(a):
    return [list(a[1])] if a[0][0] == "websocket" else [[a[1]], a[2], []]


def routes(ctx, j):
    early = ("http", "GET", "h", "/nothing")
    for n, (hows, args, kwargs, description, asks) in enumerate(ROWS):
        first = ROWS[n - 1]      # something is registered before and behind it
        before = (first[0][0], ("/before" if not first[0][0] == "Host" else "before.test", first[1][1]), first[2])
        after = (hows[0], ("/after" if hows[0] != "Host" else "after.test", args[1]), {})
        def desc(row, path, name):
            d = list(row)
            d[1] = path
            return d
        for kind in ("app", "router"):
            for how in hows:
                what = f"{kind}, {how}{args} with {kwargs}"
                deco = how in ("route", "websocket_route")
                reg = (how, args, kwargs)
                if how == hows[0]:
                    eng, s, r = j.play(what, "table", kind, [before, reg, after], [], [a[0] for a in asks], None)
                else:
                    eng, s, r = j.play(what, "table", kind, [before], [reg, ((hows[1],) + after[1:])], [a[0] for a in asks], early if n % 2 else None)
                if r is None:
                    continue
                table, results, answers, given = r
                j.eq("registered", eng, s, f"{what}: number of routes", len(table), 3)
                j.eq("registered", eng, s, f"{what}: route before it", table[0][:3], [before[0], before[1][0], [before[1][1]]])
                j.eq("registered", eng, s, f"{what}: the route", table[1:2], [description])
                j.eq("registered", eng, s, f"{what}: route behind it", table[2][:3] if len(table) > 2 else None, [after[0], after[1][0], [after[1][1]]])
                j.eq("registered", eng, s, f"{what}: the caller's list of routes", given, 3 if how == hows[0] else 1)
                j.eq("returned", eng, s, f"{what}: result", results, [] if how == hows[0] else [True, True])
                j.eq("served", eng, s, f"{what}: answers", answers, [a[1] if a[0][0] == "websocket" else [[a[1]], a[2], []] for a in asks])
                j.warned(eng, s, what, 1 if deco else 0)
    for how, args in (("Route", ("a", "page")), ("WebSocketRoute", ("w", "talk")), ("Mount", ("m", "sub")), ("Route", ("", "page")), ("Host", ("/h", "sub"))):
        eng, s, r = j.play(f"{how}{args}", "built", how, args, {})
        j.eq("registered", eng, s, f"{how}{args}", r, "refused")


def handlers(ctx, j):
    asks = [("http", "GET", "h", "/missing"), ("http", "GET", "h", "/broken"), ("http", "GET", "h", "/page"), ("http", "GET", "h", "/nowhere")]
    page = [[200], b"page GET", []]
    no = [[404], b"Not Found", []]
    fail = [[500], b"Internal Server Error", []]
    key, a404, b404 = [[400], b"key error", []], [[404], b"not here", []], [[404], b"really not here", []]
    for given, adds, want in ((None, [], [no, fail, page, no]), ([("key", "on_key")], [], [no, key, page, no]), ([("key", "on_key"), ("404", "on_404")], [], [a404, key, page, a404]),
                              (None, [("method", "key", "on_key")], [no, key, page, no]), (None, [("decorator", "404", "on_404"), ("decorator", "key", "on_key")], [a404, key, page, a404]),
                              ([("404", "on_404")], [("method", "404", "on_other_404")], [b404, fail, page, b404]), ([("404", "on_404")], [("decorator", "404", "on_other_404"), ("method", "key", "on_key")], [b404, key, page, b404])):
        what = f"exception handlers {given} and {adds}"
        eng, s, r = j.play(what, "handled", given, adds, asks)
        if r is None:
            continue
        j.eq("returned", eng, s, f"{what}: results", r[0], [True] * len(adds))
        j.eq("served", eng, s, f"{what}: answers", r[1], want)
        j.warned(eng, s, what, sum(a[0] == "decorator" for a in adds))


def layers(ctx, j):
    for given, adds, order in ((None, [], []), ([(("one",), {}), (("two",), {"more": "+"})], [], [b"two+", b"one-"]), (None, [("method", ("one",), {}), ("method", ("two", "!"), {})], [b"one-", b"two!"]),
                               ([(("one",), {})], [("method", (), {"value": "two", "more": "*"})], [b"one-", b"two*"]), (None, [("decorator", ("dispatch_a",), {}), ("decorator", ("dispatch_b",), {})], [b"a", b"b"]),
                               ([(("one",), {})], [("decorator", ("dispatch_a",), {}), ("method", ("two",), {})], [b"one-", b"a", b"two-"])):
        what = f"middleware {given} and {adds}"
        eng, s, r = j.play(what, "layered", given, adds, ("http", "GET", "h", "/page"))
        if r is None:
            continue
        j.eq("returned", eng, s, f"{what}: results", r[0], [True] * len(adds))
        j.eq("served", eng, s, f"{what}: answer", r[1], [[200], b"page GET", order])
        j.warned(eng, s, what, sum(a[0] == "decorator" for a in adds))


def events(ctx, j):
    for up, down, adds in ((None, None, []), (["up", "up_async"], None, []), (None, ["down_async", "down"], []), (["up"], ["down"], [("method", "startup", "up_async"), ("method", "shutdown", "down_async")]),
                           (None, None, [("decorator", "startup", "up"), ("decorator", "shutdown", "down"), ("decorator", "startup", "up_async"), ("method", "startup", "up")]),
                           ([], [], [("decorator", "shutdown", "down_async"), ("method", "shutdown", "down_async")])):
        for kind in ("app", "router"):
            what = f"{kind}: on_startup={up}, on_shutdown={down}, then {adds}"
            eng, s, r = j.play(what, "lived", kind, up, down, adds)
            if r is None:
                continue
            ups = (up or []) + [n for h, e, n in adds if e == "startup"]
            downs = (down or []) + [n for h, e, n in adds if e == "shutdown"]
            j.eq("returned", eng, s, f"{what}: results", r[0], [True] * len(adds))
            j.eq("served", eng, s, f"{what}: order of events", r[1], ["-"] + ups + ["-"] + downs)
            j.eq("served", eng, s, f"{what}: messages", r[2], ["lifespan.startup.complete", "lifespan.shutdown.complete"])
            j.warned(eng, s, what, (1 if up or down else 0) + sum(a[0] == "decorator" for a in adds))
    for kind, how, args in (("app", "middleware", ("websocket",)), ("app", "add_event_handler", ("started", None)), ("router", "add_event_handler", ("started", None))):
        eng, s, r = j.play(f"{kind}.{how}{args}", "refused", kind, how, args)
        j.eq("registered", eng, s, f"{kind}.{how}{args}", r, "refused")


SAME = [
    ("Route", ("/a", "page"), {}), ("Route", ("/a", "page"), {"methods": ["GET"]}), ("Route", ("/a", "page"), {"methods": ["head", "GET"], "name": "x"}), ("Route", ("/a", "plain"), {}),
    ("Route", ("/b", "page"), {}), ("Route", ("/a", "page"), {"methods": ["PUT"]}), ("Route", ("/a", "page"), {"methods": ["PUT", "GET"]}), ("Route", ("/a", "Thing"), {}),
    ("WebSocketRoute", ("/a", "page"), {}), ("WebSocketRoute", ("/a", "page"), {"name": "y"}), ("WebSocketRoute", ("/a", "talk"), {}), ("WebSocketRoute", ("/b", "page"), {}),
    ("Mount", ("/a", "sub"), {}), ("Mount", ("/a/", "sub"), {"name": "n"}), ("Mount", ("/b", "sub"), {}), ("Mount", ("/a", "obj"), {}),
    ("Host", ("a", "sub"), {}), ("Host", ("a", "sub"), {"name": "n"}), ("Host", ("b", "sub"), {}), ("Host", ("a", "obj"), {}),
    ("Router", (), {}), ("Router", (("Route", ("/a", "page"), {}),), {}), ("Router", (("Route", ("/a", "page"), {}), ("Mount", ("/a", "sub"), {})), {}), ("Router", (("Mount", ("/a", "sub"), {}), ("Route", ("/a", "page"), {})), {}),
]


def identity(spec):
    """what two routes of the same kind must share to be equal"""
    how, args, kw = spec
    if how == "Router":
        return (how, tuple(identity(x) for x in args))
    if how == "Route":
        ms = kw.get("methods", None if args[1] == "Thing" else ["GET"])
        ms = None if ms is None else frozenset(m.upper() for m in ms) | ({"HEAD"} if "GET" in [m.upper() for m in ms] else set())
        return (how, args, ms)
    return (how, (args[0].rstrip("/"), args[1]))


def sameness(ctx, j):
    for i, a in enumerate(SAME):
        for b in SAME[i:]:
            what = f"{a} == {b}"
            eng, s, r = j.play(what, "compared", a, b)
            if r is not None:
                e = identity(a) == identity(b)
                j.eq("equal", eng, s, what, r, [e, not e, e, False, False])
    for spec, text in ((("Route", ("/a", "page"), {}), "Route(path='/a', name='page', methods=['GET', 'HEAD'])"), (("Route", ("/a", "Thing"), {"name": "t"}), "Route(path='/a', name='t', methods=[])"),
                       (("Route", ("/{x:int}", "page"), {"methods": ["PUT", "DELETE"]}), "Route(path='/{x:int}', name='page', methods=['DELETE', 'PUT'])"),
                       (("WebSocketRoute", ("/w", "talk"), {}), "WebSocketRoute(path='/w', name='talk')"), (("WebSocketRoute", ("/w", "Sock"), {"name": "s"}), "WebSocketRoute(path='/w', name='s')")):
        eng, s, r = j.play(f"repr {spec}", "shown", *spec)
        if r is not None:
            j.eq("equal", eng, s, f"repr {spec}", r, text)


def run(ctx):
    ctx.rule("equal", "routes are equal exactly if they are of the same kind with the same path or host, endpoint or application and methods (routers: the same routes in the same order); the repr of a route shows path, name and methods")
    ctx.rule("registered", "the route table holds what was registered, with every argument, in order, and nothing else; malformed paths and event names are refused")
    ctx.rule("served", "requests, sessions and the lifespan get what was registered")
    ctx.rule("returned", "a decorator returns the function it decorates, a method None")
    ctx.rule("warned", "exactly the deprecated interfaces warn")
    ctx.client(CLIENT29)
    j = Judge(ctx)
    routes(ctx, j)
    handlers(ctx, j)
    layers(ctx, j)
    events(ctx, j)
    sameness(ctx, j)
    ctx.need("play", 80)
    ctx.need("value", 400)
