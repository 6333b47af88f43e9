"""Requests leave no trace in the application, by heap comparison over request histories.

Applications made of every public component are built by client programs and take a first round of requests (which may build lazily what
is built once).  Then every request is made again with other values in every field; on every path all objects that existed before it -
application, routes, middleware, their tables, closures and class attributes, and everything of the earlier requests - must have the same
contents afterwards, and what is sent must be what a fresh application sends.
"""
import json
from base64 import b64encode
from http import cookies as http_cookies

from ..lib import fold_ext
from ..mw import *
from ..tasks import ASYNC_SRC, TaskEnv
from .c20 import value
from .c21 import ConstURL
from .c30 import call, lit
from .common import *

CLIENT24 = ASYNC_SRC + '''
from itsdangerous.exc import BadSignature
from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser, requires
from starlette.background import BackgroundTask
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.requests import Request
from starlette.responses import JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.websockets import WebSocket

async def nothing():
    pass

async def show(request):
    r = PlainTextResponse(request.url.path, headers={"x-q": request.url.query, "x-p": str(request.path_params.get("p"))}, background=BackgroundTask(nothing))
    request.state.seen = request.headers.get("x-token")
    return r

def sync_show(request):
    return Response(request.url.path)

async def fail(request):
    raise HTTPException(418, detail=request.headers.get("x-token", "none"), headers={"x-why": request.url.path})

async def crash(request):
    raise ValueError(request.url.query)

async def echo(ws):
    await ws.accept(headers=[(b"x-p", ws.url.path.encode())])
    m = await ws.receive_text()
    await ws.send_text(m)
    await ws.close()

class Thing(HTTPEndpoint):
    async def get(self, request):
        return await show(request)
    async def post(self, request):
        return Response(await request.body())

class Sock(WebSocketEndpoint):
    encoding = "text"
    async def on_receive(self, websocket, data):
        await websocket.send_text(data)

async def on_418(request, exc):
    return PlainTextResponse("418 " + exc.detail, status_code=exc.status_code, headers=exc.headers)

async def on_value_error(request, exc):
    return PlainTextResponse("value " + request.url.path, status_code=400)

class Plain:
    async def __call__(self, scope, receive, send):
        if scope["type"] == "http":
            await (await show(Request(scope, receive, send)))(scope, receive, send)
        else:
            await echo(WebSocket(scope, receive, send))

class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        token = conn.headers.get("x-token")
        if token is None:
            return None
        if token == "bad":
            raise AuthenticationError("bad token")
        return AuthCredentials(["authenticated"]), SimpleUser(token)

class Passing(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        response = await call_next(request)
        response.headers["x-passed"] = request.url.path
        return response

class Buffer:
    def __init__(self):
        self.data = b""
    def write(self, data):
        self.data = self.data + data
        return len(data)
    def getvalue(self):
        return self.data
    def seek(self, n):
        return n
    def truncate(self, n=0):
        self.data = b""
        return n
    def close(self):
        pass

class Zip:
    def __init__(self, mode, fileobj, compresslevel):
        self.out = fileobj
    def write(self, data):
        self.out.write(b"<" + data)
    def flush(self):
        pass
    def close(self):
        self.out.write(b">")

class Signer:
    def __init__(self, key):
        self.key = key
    def sign(self, data):
        return data + b".sig"
    def unsign(self, data, max_age=None):
        if not data.endswith(b".sig"):
            raise BadSignature("no signature")
        return data[:-4]

class Login:
    async def __call__(self, scope, receive, send):
        request = Request(scope, receive, send)
        before = [(k, request.session[k]) for k in request.session]
        if request.url.path == "/logout":
            request.session.clear()
        elif request.url.path != "/look":
            request.session["path"] = request.url.path
        await PlainTextResponse(",".join([k + "=" + v for k, v in before]))(scope, receive, send)

class Recorder:
    def __init__(self, app):
        self.app = app
    async def __call__(self, scope, receive, send):
        await self.app(scope, receive, send)

def table():
    return [Route("/show/{p}", show, name="show"), Route("/sync", sync_show), Route("/fail", fail), Route("/crash", crash), Route("/thing", Thing), WebSocketRoute("/ws", echo), WebSocketRoute("/sock", Sock),
            Mount("/in/{m}", routes=[Route("/show/{p:int}", show), WebSocketRoute("/ws", echo)]), Mount("/plain", Plain()), Host("{sub}.example.org", Router([Route("/hosted", show)]))]

def make(kind):
    if kind == "router":
        return Router(table())
    if kind == "app":
        return Starlette(routes=table(), exception_handlers={418: on_418, ValueError: on_value_error})
    if kind == "app with middleware":
        return Starlette(routes=table(), middleware=[Middleware(Recorder), Middleware(CORSMiddleware, allow_origins=["https://a.test", "https://b.test"], allow_credentials=True, expose_headers=["x-q"])], exception_handlers={418: on_418})
    if kind == "debug":
        return Starlette(debug=True, routes=[Route("/show/{p}", show)])
    if kind == "route":
        return Route("/show/{p}", show)
    if kind == "mount":
        return Mount("/in/{m}", Plain())
    if kind == "exceptions":
        return ExceptionMiddleware(Router(table()), handlers={418: on_418, ValueError: on_value_error})
    if kind == "errors":
        return ServerErrorMiddleware(Router(table()), handler=on_value_error)
    if kind == "cors any":
        return CORSMiddleware(Plain(), allow_origins=["*"], allow_headers=["*"], allow_credentials=True)
    if kind == "cors list":
        return CORSMiddleware(Plain(), allow_origins=["https://a.test", "https://b.test"], allow_methods=["GET", "PUT"], allow_headers=["x-one"], expose_headers=["x-q"], max_age=7)
    if kind == "cors regex":
        return CORSMiddleware(Plain(), allow_origin_regex="https://.*[.]test", allow_headers=["*"])
    if kind == "trusted":
        return TrustedHostMiddleware(Plain(), allowed_hosts=["a.test", "*.example.org"])
    if kind == "https":
        return HTTPSRedirectMiddleware(Plain())
    if kind == "auth":
        return AuthenticationMiddleware(Plain(), backend=Backend())
    if kind == "gzip":
        return GZipMiddleware(Plain(), minimum_size=3)
    if kind == "session":
        return SessionMiddleware(Login(), secret_key="s")
    if kind == "base":
        return Passing(Plain())

def scope_of(typ, method, path, token, origin, host, more, query):
    headers = [(b"host", host.encode())]
    if token != "plain":
        headers.append((b"accept-encoding", b"gzip"))
    if origin:
        headers.append((b"origin", origin.encode()))
    if token:
        headers.append((b"x-token", token.encode()))
        headers.append((b"cookie", b"k=" + token.encode()))
    headers.extend(more)
    scope = {"type": typ, "path": path, "query_string": query, "headers": headers, "scheme": "ws" if typ == "websocket" else "http", "server": ("h", 80), "client": ("c", 1), "root_path": ""}
    if typ == "http":
        scope["method"] = method
    return scope

async def play(app, scope, data):
    sent, queue = [], []
    if scope["type"] == "http":
        queue.append({"type": "http.request", "body": data, "more_body": False})
    else:
        queue.append({"type": "websocket.connect"})
        queue.append({"type": "websocket.receive", "text": data.decode()})
    async def receive():
        if queue:
            return queue.pop(0)
        return {"type": scope["type"] + ".disconnect", "code": 1000}
    async def send(message):
        sent.append(message)
    try:
        await app(scope, receive, send)
    except Exception as exc:
        sent.append({"type": "raised", "class": exc.__class__.__name__})
    return [[m["type"], m.get("status"), list(m.get("headers", [])), m.get("body"), m.get("text"), m.get("class"), m.get("code"), m.get("reason")] for m in sent]
'''
KINDS = ("router", "app", "app with middleware", "debug", "route", "mount", "exceptions", "errors", "cors any", "cors list", "cors regex", "trusted", "https", "auth", "gzip", "session", "base")


class Env24(ConstURL, TaskEnv):
    def thread_call(self, eng, st, args, kwargs, node):
        return ok(st, aw("thread", *args))

    def aw_thread(self, eng, st, args, node):
        return list(eng.call(st, args[0], list(args[1:]), {}, node))

    def on_ext(self, eng, st, q, args, kwargs, node):
        model = {"io.BytesIO": "Buffer", "gzip.GzipFile": "Zip", "itsdangerous.TimestampSigner": "Signer"}.get(q)
        if model is not None:
            return list(eng.call(st, eng.force(st, eng.p.lookup_global(eng.p.client, model)), args, kwargs, node))
        if q == "http.cookies._unquote" and is_c(eng.known(st, args[0])):
            return ok(st, C(http_cookies._unquote(cval(eng.known(st, args[0])))))
        if q in ("json.dumps", "json.loads", "base64.b64encode", "base64.b64decode"):
            r = fold_ext(eng, st, q, [eng.known(st, a) for a in args], kwargs, node)
            if r is not None:
                return r
        return super().on_ext(eng, st, q, args, kwargs, node)


def engine(ctx):
    eng = ctx.engine(Env24())
    eng.concrete = 40
    eng.max_steps = 400_000
    eng.models = {k: v for k, v in eng.models.items() if not k.startswith(("starlette.datastructures.Headers.", "starlette.datastructures.MutableHeaders."))}
    return eng


def requests(kind, v):
    """the requests of a round; v: the values that differ between rounds"""
    a, b = v
    http = lambda path, method="GET", **kw: (("http", method, path, kw.get("token", "t" + a), kw.get("origin"), kw.get("host", "a.test"), kw.get("more", []), kw.get("query", b"q=" + a.encode())), b"body " + a.encode())
    ws = lambda path, **kw: (("websocket", "", path, kw.get("token", "t" + a), kw.get("origin"), kw.get("host", "a.test"), [], b""), b"data " + a.encode())
    out = []
    if kind in ("router", "app", "app with middleware", "exceptions", "errors", "debug"):
        out += [http("/show/" + a), http("/nothing/" + a)]
    if kind in ("router", "app", "exceptions"):
        out += [http("/show/" + a, "POST"), http("/sync"), http("/thing"), http("/thing", "POST"), http("/thing", "DELETE"), http(f"/in/{a}/show/{b}"), http("/plain/" + a), http("/hosted", host=a + ".example.org"),
                ws("/ws"), ws("/in/" + a + "/ws"), ws("/none/" + a), http("/show/x/"), ws("/sock")]
    if kind in ("app", "exceptions", "app with middleware"):
        out += [http("/fail")]
    if kind in ("app", "exceptions", "errors"):
        out += [http("/crash")]
    if kind == "route":
        out += [http("/show/" + a), http("/show/" + a, "POST"), ws("/show/" + a)]
    if kind == "mount":
        out += [http(f"/in/{a}/x{b}"), ws(f"/in/{a}/x{b}")]
    if kind.startswith("cors") or kind == "app with middleware":
        o = ["https://a.test", "https://b.test"][int(b) % 2]
        pre = [(b"access-control-request-method", b"PUT"), (b"access-control-request-headers", b"x-one, x-" + a.encode())]
        out += [http("/p", origin=o), http("/p", origin="https://evil." + a), http("/p", "OPTIONS", origin=o, more=pre), http("/p", "OPTIONS", origin="https://evil." + a, more=pre),
                http("/p", "OPTIONS", origin=o, more=pre[:1]), http("/p", token=None, origin=o), http("/p")]
    if kind == "trusted":
        out += [http("/p"), http("/p", host="evil." + a), http("/p", host=a + ".example.org"), ws("/p", host="evil." + a), ws("/p")]
    if kind == "https":
        out += [http("/p" + a), ws("/w" + a)]
    if kind == "auth":
        out += [http("/p", token=None), http("/p" + a), http("/p", token="bad"), ws("/w" + a), ws("/w", token="bad")]
    if kind == "session":
        cookie = lambda d, sig=".sig": [(b"cookie", b"session=" + b64encode(json.dumps(d).encode()) + sig.encode())]
        out += [http("/p" + a, more=c, token=None) for c in ([], cookie({"user": a}), cookie({"user": b, "path": a}), cookie({}), cookie({"user": a}, ".bad"))]
        out += [http("/logout", more=c, token=None) for c in ([], cookie({"user": a}))] + [http("/look", more=c, token=None) for c in ([], cookie({"user": a}))] + [ws("/look", token=None)]
    if kind in ("gzip", "base"):
        out += [http("/p" + a), http("/p" + b, token=None), http("/p" + a, token="plain"), ws("/p" + a)]
    return out


def same(h1, a, h2, b, seen):
    """are two values, each in its own heap, the same up to the identity of objects made since"""
    if a is b and not (isinstance(a, V) and a.tag == "ref"):
        return True
    if not isinstance(a, V) or not isinstance(b, V):
        return a == b
    if a.tag == "ref" and b.tag == "ref":
        if (a, b) in seen:
            return True
        seen.add((a, b))
        x, y = h1.get(a), h2.get(b)
        if x is None or y is None:
            return x is y
        if a is b and x is y:
            kids = [v for v in list(x.d.values()) + list(x.items) if isinstance(v, V)]
            return all(same(h1, v, h2, v, seen) for v in kids)
        return (x.kind, x.cls, x.base) == (y.kind, y.cls, y.base) and len(x.items) == len(y.items) and list(x.d) == list(y.d) and \
            all(same(h1, v, h2, y.d[k], seen) for k, v in x.d.items()) and all(same(h1, v, h2, w, seen) for v, w in zip(x.items, y.items))
    if a.tag != b.tag or len(a.a) != len(b.a):
        return False
    return all(same(h1, x, h2, y, seen) if isinstance(x, V) or isinstance(y, V) else x == y for x, y in zip(a.a, b.a))


def changes(before, after):
    """(object, field) whose content is another after the request"""
    out = []
    for r, x in before.items():
        y = after.get(r)
        if y is None or y is x or not hasattr(x, "kind") or x.kind == "attrs" and is_t(r.a[0], "exc"):
            continue
        keys = list(dict.fromkeys(list(x.d) + list(y.d)))
        for k in keys:
            if k not in x.d or k not in y.d or not same(before, x.d[k], after, y.d[k], set()):
                out.append((x, k, x.d.get(k), y.d.get(k)))
        if len(x.items) != len(y.items) or any(not same(before, v, after, w, set()) for v, w in zip(x.items, y.items)):
            out.append((x, None, None, None))
    return out


def describe(c):
    o, k, a, b = c
    name = getattr(o.cls, "qual", None) or o.kind
    t = lambda v: show(v)[:60] if isinstance(v, V) else "absent"
    return f"{name}: the elements change" if k is None else f"{name}.{cval(k) if isinstance(k, V) and is_c(k) else k}: {t(a)} becomes {t(b)}"


def play(ctx, eng, st, app, req):
    scope, data = req
    out = []
    for k, s, sc in call(ctx, eng, st, "scope_of", [lit(eng, st, x) for x in scope]):
        out += call(ctx, eng, s, "play", [app, sc, C(data)])
    return out


def known(x):
    """unknown parts of a value are not compared"""
    if isinstance(x, (list, tuple)):
        return [known(y) for y in x]
    return "?" if isinstance(x, str) and x.startswith("<") and x.endswith(">") else x


def rendered(outs):
    return sorted({repr((k, known(value(s, v)))) for k, s, v in outs})


def run(ctx):
    ctx.rule("unchanged", "a request changes no object that existed before it")
    ctx.rule("same-answer", "what is sent for a request does not depend on the requests before it")
    ctx.client(CLIENT24)
    for kind in KINDS:
        eng = engine(ctx)
        st = eng.start_state()
        for k, s, app in call(ctx, eng, st, "make", [C(kind)]):
            fresh = s.fork()
            warm = [s]
            for req in requests(kind, ("one", "1")):
                nx = []
                for w in warm:
                    nx += [o[1] for o in play(ctx, eng, w, app, req)]
                warm = nx[:4]
            for req in requests(kind, ("two", "22")):
                want = rendered(play(ctx, eng, fresh.fork(), app, req))
                for w in warm:
                    before = dict(w.heap)
                    outs = play(ctx, eng, w.fork(), app, req)
                    what = f"{kind}: {req[0][1] or 'websocket'} {req[0][2]}"
                    for k, s2, v in outs:
                        ctx.oblige("request")
                        for c in changes(before, s2.heap):
                            eng.report("unchanged", getattr(c[0].cls, "qual", kind), s2, f"{what}: {describe(c)}")
                    if not set(rendered(outs)) <= set(want):
                        eng.report("same-answer", kind, outs[0][1], f"{what}: {rendered(outs)} after other requests, {want} from a fresh application")
    ctx.need("request", 60)
