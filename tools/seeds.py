SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("c01-file-head-background", "C01",
     [("responses.py", 'send_header_only: bool = scope["method"].upper() == "HEAD"', 'send_header_only: bool = scope["method"].upper() == "HEAD"\n        self.background = None if send_header_only else self.background')],
     "a HEAD request for a FileResponse carrying a background task",
     "the background task is silently dropped for HEAD requests",
     '''
import asyncio, tempfile
from starlette.background import BackgroundTask
from starlette.responses import FileResponse
ran = []
with tempfile.NamedTemporaryFile() as f:
    f.write(b"x" * 10); f.flush()
    for method in ("GET", "HEAD"):
        r = FileResponse(f.name, background=BackgroundTask(lambda m=method: ran.append(m)))
        async def receive(): return {"type": "http.disconnect"}
        async def send(m): pass
        asyncio.run(r({"type": "http", "method": method, "headers": []}, receive, send))
assert ran == ["GET", "HEAD"], ran
''')

seed("c16-suffix-compare", "C16",
     [("middleware/trustedhost.py", 'host.endswith(pattern[1:])', 'host.endswith(pattern.lstrip("*."))')],
     "a Host that ends with the wildcard domain without a dot in between (evilexample.org for *.example.org)",
     "hosts outside the allow list reach the application",
     '''
import asyncio
from starlette.middleware.trustedhost import TrustedHostMiddleware
hit = []
async def app(scope, receive, send): hit.append(1)
async def send(m): pass
mw = TrustedHostMiddleware(app, allowed_hosts=["*.example.org"])
asyncio.run(mw({"type": "http", "method": "GET", "path": "/", "headers": [(b"host", b"evilexample.org")]}, None, send))
assert not hit
''')

seed("c19-session-user", "C19",
     [("middleware/authentication.py", '        scope["auth"], scope["user"] = auth_result\n', '        scope["auth"] = auth_result[0]\n        scope.setdefault("user", auth_result[1])\n')],
     "an outer component or server already put a user into the scope",
     "the application sees a user the backend did not authenticate",
     '''
import asyncio
from starlette.authentication import AuthCredentials, SimpleUser
from starlette.middleware.authentication import AuthenticationMiddleware
seen = []
async def app(scope, receive, send): seen.append(scope["user"].display_name)
class B:
    async def authenticate(self, conn): return AuthCredentials(["x"]), SimpleUser("bob")
asyncio.run(AuthenticationMiddleware(app, backend=B())({"type": "http", "headers": [], "user": SimpleUser("root")}, None, None))
assert seen == ["bob"], seen
''')

seed("c17-userinfo-port", "C17",
     [("middleware/httpsredirect.py", 'if scope["type"] in ("http", "websocket") and scope["scheme"] in ("http", "ws"):', 'if (scope["type"], scope["scheme"]) in (("http", "http"), ("websocket", "ws")):')],
     "a websocket connection whose server reports the scheme http (some servers pass the transport's scheme)",
     "an insecure websocket connection reaches the application",
     '''
import asyncio
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
hit = []
async def app(scope, receive, send): hit.append(1)
async def send(m): pass
sc = {"type": "websocket", "path": "/a", "scheme": "http", "query_string": b"", "extensions": {"websocket.http.response": {}}, "headers": [(b"host", b"h.example")]}
asyncio.run(HTTPSRedirectMiddleware(app)(sc, None, send))
assert not hit
''')

seed("c04-close-after-denial", "C04",
     [("websockets.py", 'if not message.get("more_body", False):\n                self.application_state = WebSocketState.DISCONNECTED', 'if "more_body" not in message:\n                self.application_state = WebSocketState.DISCONNECTED')],
     "a denial response whose last body message says more_body False explicitly (as StreamingResponse does)",
     "the connection stays in the response state, so further messages are forwarded after the denial response ended",
     '''
import asyncio
from starlette.websockets import WebSocket, WebSocketState
from starlette.responses import StreamingResponse
out = []
async def receive(): return {"type": "websocket.connect"}
async def send(m): out.append(m)
async def main():
    ws = WebSocket({"type": "websocket", "headers": [], "extensions": {"websocket.http.response": {}}}, receive, send)
    await ws.receive()
    await ws.send({"type": "websocket.http.response.start", "status": 403, "headers": []})
    await ws.send({"type": "websocket.http.response.body", "body": b"", "more_body": False})
    try:
        await ws.send({"type": "websocket.http.response.body", "body": b"again"})
    except RuntimeError:
        return
    raise SystemExit("body after the end was forwarded")
asyncio.run(main())
''')

seed("c14-shared-empty-session", "C14",
     [("middleware/sessions.py", '''            except BadSignature:
                scope["session"] = {}''', '''            except BadSignature:
                scope["session"] = self.no_session'''),
      ("middleware/sessions.py", "        self.session_cookie = session_cookie\n", "        self.session_cookie = session_cookie\n        self.no_session: dict[str, typing.Any] = {}\n")],
     "two requests that both present a cookie with a bad signature, the first of which stores something in its session",
     "the second client sees the first client's session data",
     '''
import asyncio
from starlette.middleware.sessions import SessionMiddleware
seen = []
async def app(scope, receive, send):
    seen.append(dict(scope["session"]))
    scope["session"]["user"] = "alice"
mw = SessionMiddleware(app, "k")
for _ in range(2):
    asyncio.run(mw({"type": "http", "headers": [(b"cookie", b"session=bad")]}, None, None))
assert seen == [{}, {}], seen
''')

seed("c15-origin-prefix", "C15",
     [("middleware/cors.py", 'return origin in self.allow_origins', 'return origin.startswith(tuple(self.allow_origins))')],
     "an origin that has an allowed origin as a proper prefix (https://example.org.evil.net)",
     "foreign origins are granted credentials-bearing access",
     '''
import asyncio
from starlette.middleware.cors import CORSMiddleware
mw = CORSMiddleware(None, allow_origins=["https://example.org"])
out = []
async def send(m): out.append(m)
asyncio.run(mw({"type": "http", "method": "OPTIONS", "headers": [(b"origin", b"https://example.org.evil.net"), (b"access-control-request-method", b"GET")]}, None, send))
assert b"access-control-allow-origin" not in dict(out[0]["headers"])
''')

seed("c18-scope-substring", "C18",
     [("authentication.py", 'if scope not in conn.auth.scopes:', 'if scope not in " ".join(conn.auth.scopes):')],
     "a granted scope whose name contains the required one (nonadmin / admin)",
     "functions run for users lacking the required scope",
     '''
import asyncio
from starlette.authentication import AuthCredentials, requires
from starlette.exceptions import HTTPException
from starlette.requests import Request
@requires("admin")
def f(request): return "secret"
r = Request({"type": "http", "method": "GET", "path": "/", "headers": [], "auth": AuthCredentials(["nonadmin"])})
try:
    f(r)
except HTTPException as e:
    assert e.status_code == 403
else:
    raise SystemExit(1)
''')

seed("c07-started-late", "C07",
     [("_exception_handler.py", '''                response_started = True
            await send(message)''', '''                await send(message)
                response_started = True
                return
            await send(message)''')],
     "the server's send fails for the response start (client gone) and a handler is registered for that exception class",
     "a second response start is sent after the first one was handed to the server",
     '''
import asyncio
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.responses import PlainTextResponse
sent = []
async def send(m):
    sent.append(m["type"])
    if len(sent) == 1:
        raise OSError("gone")
async def handler(request, exc): return PlainTextResponse("sorry")
mw = ExceptionMiddleware(PlainTextResponse("x"), handlers={OSError: handler})
try:
    asyncio.run(mw({"type": "http", "method": "GET", "path": "/", "headers": []}, None, send))
except RuntimeError:
    pass
assert sent == ["http.response.start"], sent
''')

seed("c06-unescaped-filename", "C06",
     [("middleware/errors.py", 'html.escape(frame.filename)', 'frame.filename')],
     "debug mode and a frame whose virtual file name contains markup (templates, eval'd code)",
     "markup injection in the debug page",
     '''
import asyncio
from starlette.middleware.errors import ServerErrorMiddleware
ns = {}
exec(compile("async def app(scope, receive, send): raise ValueError(1)", "<script>alert(1)</script>", "exec"), ns)
out = []
async def send(m): out.append(m)
try:
    asyncio.run(ServerErrorMiddleware(ns["app"], debug=True)({"type": "http", "method": "GET", "path": "/", "headers": [(b"accept", b"text/html")]}, None, send))
except ValueError:
    pass
assert b"<script>alert(1)" not in out[1]["body"]
''')

seed("c02-head-fallback", "C02",
     [("endpoints.py", 'handler_name = "get" if request.method == "HEAD" and not hasattr(self, "head") else request.method.lower()',
       'handler_name = "get" if request.method == "HEAD" else request.method.lower()')],
     "an endpoint class that defines its own head handler next to get, and a HEAD request",
     "HEAD runs the get handler although a head handler is defined",
     '''
import asyncio
from starlette.endpoints import HTTPEndpoint
from starlette.responses import PlainTextResponse
ran = []
class E(HTTPEndpoint):
    async def get(self, request):
        ran.append("get"); return PlainTextResponse("x")
    async def head(self, request):
        ran.append("head"); return PlainTextResponse("")
async def go():
    async def send(m): pass
    await E({"type": "http", "method": "HEAD", "path": "/", "headers": []}, None, send)
asyncio.run(go())
assert ran == ["head"], ran
''')

seed("c05-disconnect-null-code", "C05",
     [("endpoints.py", 'int(message.get("code") or status.WS_1000_NORMAL_CLOSURE)', 'int(message.get("code", status.WS_1000_NORMAL_CLOSURE))')],
     "a server that reports a disconnect with code None",
     "int(None) raises: on_disconnect sees 1011 and the connection ends with a TypeError",
     '''
import asyncio
from starlette.endpoints import WebSocketEndpoint
codes = []
class E(WebSocketEndpoint):
    async def on_disconnect(self, websocket, close_code): codes.append(close_code)
msgs = [{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": None}]
async def receive(): return msgs.pop(0)
async def send(m): pass
async def go(): await E({"type": "websocket", "path": "/", "headers": []}, receive, send)
asyncio.run(go())
assert codes == [1000], codes
''')

seed("c35-vary-replaced", "C35",
     [("middleware/gzip.py", """                headers.add_vary_header("Accept-Encoding")
                if body != message.get("body", b""):
                    headers["Content-Encoding"] = self.content_encoding
                    del headers["Content-Length"]""", """                headers["Vary"] = "Accept-Encoding"
                if body != message.get("body", b""):
                    headers["Content-Encoding"] = self.content_encoding
                    del headers["Content-Length"]""")],
     "a streamed response that sets its own Vary header",
     "the application's Vary value is overwritten, so caches mix responses",
     '''
from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.responses import StreamingResponse
from starlette.routing import Route
from starlette.testclient import TestClient
def home(request):
    return StreamingResponse((b"x" * 400 for i in range(5)), headers={"Vary": "Cookie"})
app = Starlette(routes=[Route("/", home)], middleware=[Middleware(GZipMiddleware)])
r = TestClient(app).get("/", headers={"accept-encoding": "gzip"})
assert "cookie" in r.headers["vary"].lower(), r.headers
''')

seed("c25-late-receive", "C25",
     [("middleware/base.py", """                if response_sent.is_set():
                    return {"type": "http.disconnect"}

                return message
""", """                return message
""")],
     "an application that waits in receive() while the middleware finishes the response",
     "receive() fails with an unbound variable instead of reporting the disconnect",
     '''
import asyncio
from starlette.middleware.base import BaseHTTPMiddleware
got = []
async def app(scope, receive, send):
    await receive()
    await send({"type": "http.response.start", "status": 200, "headers": []})
    await send({"type": "http.response.body", "body": b"x", "more_body": False})
    got.append(await receive())
class M(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        return await call_next(request)
msgs = [{"type": "http.request", "body": b"abc", "more_body": False}]
async def receive():
    if msgs:
        return msgs.pop(0)
    await asyncio.sleep(3600)
async def send(m):
    await asyncio.sleep(0.01)
async def main():
    await asyncio.wait_for(M(app)({"type": "http", "method": "POST", "path": "/", "headers": []}, receive, send), 5)
asyncio.run(main())
assert got == [{"type": "http.disconnect"}], got
''')

seed("c09-partial-scope", "C09", [("routing.py", """            elif match == Match.PARTIAL and partial is None:
                partial = route
                partial_scope = child_scope
""", """            elif match == Match.PARTIAL:
                partial = partial or route
                partial_scope = child_scope
""")],
     "two routes that match the path but not the method, and something that looks at the scope of the 405",
     "the request is handled by the first partial match with the path parameters of the last one",
     '''
from starlette.applications import Starlette
from starlette.responses import JSONResponse
from starlette.routing import Route
from starlette.testclient import TestClient
async def a(request): ...
async def b(request): ...
async def h(request, exc):
    return JSONResponse(request.path_params, status_code=405)
app = Starlette(routes=[Route("/a/{x}", a, methods=["GET"]), Route("/{y}/{z}", b, methods=["PUT"])], exception_handlers={405: h})
r = TestClient(app).post("/a/1")
assert r.status_code == 405 and r.json() == {"x": "1"}, r.json()
''')

seed("c10-float-dot", "C10", [("convertors.py", r'regex = r"[0-9]+(\.[0-9]+)?"', r'regex = r"[0-9]+\.?[0-9]*"')],
     "a path whose float parameter ends with a dot",
     "'/f/1.' is routed as 1.0 although it is not a float of the documented form",
     '''
from starlette.responses import JSONResponse
from starlette.routing import Route, Router
from starlette.testclient import TestClient
async def ep(request):
    return JSONResponse(request.path_params)
c = TestClient(Router([Route("/f/{x:float}", ep)]))
assert c.get("/f/1.5").json() == {"x": 1.5}
assert c.get("/f/1.").status_code == 404
''')

seed("c11-outer-params", "C11", [("routing.py", """                path_params = dict(scope.get("path_params", {}))
                path_params.update(matched_params)
                child_scope = {"path_params": path_params, "endpoint": self.app}
""", """                path_params = scope.setdefault("path_params", {})
                path_params.update(matched_params)
                child_scope = {"path_params": path_params, "endpoint": self.app}
""")],
     "two Host routes of which the first matches the header but a mounted route is tried for the redirect, or a caller looking at the outer scope",
     "matching a Host writes its parameters into the request's scope although the route may not be chosen",
     '''
from starlette.routing import Host, Router
r = Host("{sub}.example.org", app=Router([]))
outer = {"a": "1"}
scope = {"type": "http", "path": "/", "headers": [(b"host", b"x.example.org")], "path_params": outer}
r.matches(scope)
assert outer == {"a": "1"}, outer
''')

seed("c12-empty-path", "C12", [("routing.py", """            if path_kwarg is not None:
                remaining_params["path"] = path_kwarg
""", """            if path_kwarg:
                remaining_params["path"] = path_kwarg
""")],
     "url_path_for of a route below a mount whose own parameter is called path, with the empty string as its value",
     "the child route's own (empty) path parameter is lost and the URL cannot be built",
     '''
from starlette.routing import Mount, Route, Router
async def ep(request): ...
r = Router([Mount("/m", name="m", routes=[Route("/files/{path:path}", ep, name="files")])])
assert r.url_path_for("m:files", path="x") == "/m/files/x"
assert r.url_path_for("m:files", path="") == "/m/files/"
''')

seed("c08-shared-list", "C08", [("applications.py", """        self.user_middleware = [] if middleware is None else list(middleware)
""", """        self.user_middleware = middleware if isinstance(middleware, list) else list(middleware or ())
""")],
     "two applications configured from one middleware list, one of which adds middleware of its own",
     "add_middleware on one application changes the list of the other",
     '''
from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.middleware.gzip import GZipMiddleware
common = [Middleware(GZipMiddleware)]
a, b = Starlette(middleware=common), Starlette(middleware=common)
a.add_middleware(GZipMiddleware, minimum_size=5)
assert len(common) == 1 and len(b.user_middleware) == 1
''')

seed("c13-escape-ends-search", "C13", [("staticfiles.py", """                # Don't allow misbehaving clients to break out of the static files directory.
                continue
""", """                # Don't allow misbehaving clients to break out of the static files directory.
                break
""")],
     "two directories, the first of which has a symbolic link leading outside under the name of a file of the second",
     "the search ends at the first directory that does not contain the path, so a file of a later directory is not found",
     '''
import os, tempfile, pathlib
from starlette.staticfiles import StaticFiles
from starlette.testclient import TestClient
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    (d / "a").mkdir(); (d / "b").mkdir(); (d / "out").mkdir()
    (d / "out" / "x.txt").write_text("secret")
    (d / "b" / "x.txt").write_text("public")
    os.symlink(d / "out" / "x.txt", d / "a" / "x.txt")
    app = StaticFiles(directory=d / "a")
    app.all_directories.append(d / "b")
    assert TestClient(app).get("/x.txt").text == "public"
''')

seed("c03-range-hoisted-size", "C03", [("responses.py", """                await file.seek(start)
                more_body = True
                while more_body:
                    chunk = await file.read(min(self.chunk_size, end - start))
""", """                await file.seek(start)
                more_body = True
                read_size = min(self.chunk_size, end - start)
                while more_body:
                    chunk = await file.read(read_size)
""")],
     "a range longer than the chunk size but not a multiple of it, in a file that goes on after it",
     "the last read of a long range is a full chunk, so bytes beyond the range (and the Content-Length) are sent",
     '''
import asyncio, os, tempfile
from starlette.responses import FileResponse
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x")
    open(p, "wb").write(os.urandom(300000))
    sent = []
    async def send(m): sent.append(m)
    asyncio.run(FileResponse(p)({"type": "http", "method": "GET", "headers": [(b"range", b"bytes=0-99999")]}, None, send))
    assert sum(len(m["body"]) for m in sent[1:]) == 100000
''')

seed("c36-minute-resolution", "C36", [("staticfiles.py", "if_modified_since is not None and last_modified is not None and if_modified_since >= last_modified:",
 "if_modified_since is not None and last_modified is not None and if_modified_since[:5] >= last_modified[:5]:")],
     "a file modified again within the minute of the copy the client has",
     "the dates are compared without their seconds, so a newer file is answered with 304",
     '''
import os, tempfile
from starlette.staticfiles import StaticFiles
from starlette.testclient import TestClient
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.txt")
    open(p, "w").write("new")
    os.utime(p, (1000000030, 1000000030))
    r = TestClient(StaticFiles(directory=d)).get("/x.txt", headers={"If-Modified-Since": "Sun, 09 Sep 2001 01:46:50 GMT"})
    assert r.headers["last-modified"] == "Sun, 09 Sep 2001 01:47:10 GMT", r.headers
    r = TestClient(StaticFiles(directory=d)).get("/x.txt", headers={"If-Modified-Since": "Sun, 09 Sep 2001 01:47:05 GMT"})
    assert r.status_code == 200
''')

seed("c34-delete-loses-domain", "C34", [("responses.py", """            path=path,
            domain=domain,
            secure=secure,
            httponly=httponly,
            samesite=samesite,
        )
""", """            path=path,
            secure=secure,
            httponly=httponly,
            samesite=samesite,
        )
""")],
     "deleting a cookie that was set for a domain",
     "the deletion has no Domain attribute, so it does not delete the domain's cookie",
     '''
from starlette.responses import Response
r = Response()
r.delete_cookie("a", path="/p", domain="example.org", secure=True)
assert "Domain=example.org" in r.headers["set-cookie"], r.headers
''')

seed("c43-charset-length", "C43", [("responses.py", """        body = getattr(self, "body", None)
        if (
            body is not None
            and populate_content_length
            and not (self.status_code < 200 or self.status_code in (204, 304))
        ):
""", """        body = getattr(self, "body", None)
        if (
            body is not None
            and populate_content_length
            and not (self.status_code in (100, 101) or self.status_code in (204, 304))
        ):
""")],
     "an informational response other than 100 and 101 (103 Early Hints)",
     "a Content-Length is declared on a response that must not have one",
     '''
from starlette.responses import Response
for status in (100, 101, 102, 103, 199, 204, 304):
    assert "content-length" not in Response(b"", status_code=status).headers, status
assert Response(b"").headers["content-length"] == "0"
''')

seed("c33-empty-variable", "C33", [("config.py", """        if key in self.environ:
            value = self.environ[key]
            return self._perform_cast(key, value, cast)
""", """        value = self.environ.get(key)
        if value:
            return self._perform_cast(key, value, cast)
""")],
     "a variable that is set to the empty string",
     "an environment variable set to nothing no longer overrides the config file or the default",
     '''
from starlette.config import Config
assert Config(environ={"KEY": ""})("KEY", default="d") == ""
assert Config(environ={"KEY": "v"})("KEY", default="d") == "v"
assert Config(environ={})("KEY", default="d") == "d"
''')

seed("c30-update-stale", "C30", [("datastructures.py", """        value = MultiDict(*args, **kwargs)
        existing_items = [(k, v) for (k, v) in self._list if k not in value.keys()]
        self._list = existing_items + value.multi_items()
        self._dict.update(value)
""", """        value = MultiDict(*args, **kwargs)
        existing_items = [(k, v) for (k, v) in self._list if k not in value.keys()]
        self._list = existing_items + value.multi_items()
        for k, v in value.multi_items():
            if self._dict.get(k) not in value.getlist(k):
                self._dict[k] = v
""")],
     "an update that gives a key several values, the first of them new or equal to the current one",
     "d[k] is the first of the values instead of the last one, and no longer agrees with getlist",
     '''
from starlette.datastructures import MultiDict
for start in ([], [("a", "1")], [("a", "2")], [("a", "3"), ("b", "0")]):
    d = MultiDict(start)
    d.update(MultiDict([("a", "1"), ("a", "2")]))
    assert d["a"] == d.getlist("a")[-1] == "2", (start, d["a"])
''')

seed("c32-third-duplicate", "C32", [("datastructures.py", """        pop_indexes: list[int] = []
        for idx, (item_key, item_value) in enumerate(self._list):
            if item_key == del_key:
                pop_indexes.append(idx)

        for idx in reversed(pop_indexes):
            del self._list[idx]
""", """        pop_indexes: list[int] = []
        for idx, (item_key, item_value) in enumerate(self._list):
            if item_key == del_key:
                pop_indexes.append(idx)

        for shift, idx in enumerate(pop_indexes):
            del self._list[idx - bool(shift)]
""")],
     "a header with three or more occurrences that is deleted",
     "the third occurrence stays and an unrelated header may be removed",
     '''
from starlette.datastructures import MutableHeaders
h = MutableHeaders(raw=[(b"a", b"1"), (b"b", b"2"), (b"a", b"3"), (b"a", b"4"), (b"c", b"5")])
del h["A"]
assert h.raw == [(b"b", b"2"), (b"c", b"5")], h.raw
''')

seed("c40-first-dashes", "C40", [("schemas.py", """docstring.split("---")[-1]""", """docstring.split("---", maxsplit=1)[-1]""")],
     "a docstring whose prose contains --- before the schema separator",
     "the operation disappears from the schema, or generation fails on the prose",
     '''
from starlette.routing import Route
from starlette.schemas import SchemaGenerator
def f(request):
    """Text --- more text: here: it is.
    ---
    responses:
      200: ok
    """
try:
    s = SchemaGenerator({}).get_schema([Route("/", f)])
except Exception as exc:
    raise SystemExit(repr(exc))
assert s["paths"] == {"/": {"get": {"responses": {200: "ok"}}}}, s
''')

seed("c20-piecewise-limit", "C20", [("formparsers.py", """            if len(self._current_part.data) + len(message_bytes) > self.max_part_size:
""", """            if max(len(self._current_part.data), len(message_bytes)) > self.max_part_size:
""")],
     "a field larger than max_part_size that arrives in several pieces, none of them too large",
     "a field of almost twice the allowed size is accepted",
     '''
import asyncio
from starlette.formparsers import MultiPartException
from starlette.requests import Request
def req(chunks):
    ms = [{"type": "http.request", "body": c, "more_body": True} for c in chunks] + [{"type": "http.request"}]
    async def receive():
        return ms.pop(0)
    return Request({"type": "http", "headers": [(b"content-type", b"multipart/form-data; boundary=B")]}, receive)
async def main():
    head = b'--B\\r\\nContent-Disposition: form-data; name="a"\\r\\n\\r\\n'
    form = await req([head + b"x" * 10 + b"\\r\\n--B--\\r\\n"]).form(max_part_size=10)
    assert form["a"] == "x" * 10
    try:
        await req([head + b"x" * 8, b"x" * 8, b"\\r\\n--B--\\r\\n"]).form(max_part_size=10)
    except MultiPartException:
        return
    raise SystemExit("16 bytes accepted")
asyncio.run(main())
''')

seed("c26-empty-body-twice", "C26", [("requests.py", """        if hasattr(self, "_body"):
            yield""", """        if getattr(self, "_body", None):
            yield""")],
     "a request with an empty body that is streamed (or parsed as a form) after body() was called",
     "the second read fails with RuntimeError instead of giving the empty body",
     '''
import asyncio
from starlette.requests import Request
async def main():
    ms = [{"type": "http.request"}]
    async def receive():
        return ms.pop(0)
    r = Request({"type": "http", "headers": []}, receive)
    assert await r.body() == b""
    try:
        assert [c async for c in r.stream() if c] == []
    except RuntimeError as exc:
        raise SystemExit(repr(exc))
asyncio.run(main())
''')

seed("c31-empty-state-detached", "C31", [("requests.py", """            self.scope.setdefault("state", {})
            # Create""", """            if not self.scope.get("state"):
                self.scope["state"] = {}
            # Create""")],
     "a scope whose state dictionary is present but still empty when the request reads request.state",
     "the request's state is no longer the dictionary the server or an outer layer holds",
     '''
from starlette.requests import Request
shared = {}
r = Request({"type": "http", "headers": [], "state": shared})
r.state.user = "x"
assert shared == {"user": "x"}, shared
''')

seed("c27-shutdown-only-when-clean", "C27", [("routing.py", """    async def __aexit__(self, *exc_info: object) -> None:
        await self._router.shutdown()""", """    async def __aexit__(self, exc_type: object, *exc_info: object) -> None:
        if exc_type is None:
            await self._router.shutdown()""")],
     "the server cancels (or fails in) the lifespan receive() after startup completed, with on_shutdown handlers",
     "the shutdown handlers do not run when the lifespan task is torn down by an exception",
     '''
import asyncio
from starlette.applications import Starlette
log = []
app = Starlette(on_startup=[lambda: log.append("up")], on_shutdown=[lambda: log.append("down")])
n = [0]
async def receive():
    n[0] += 1
    if n[0] == 2:
        raise asyncio.CancelledError()
    return {"type": "lifespan.startup"}
async def send(m):
    log.append(m["type"])
try:
    asyncio.run(app({"type": "lifespan", "state": {}}, receive, send))
except BaseException:
    pass
assert log == ["up", "lifespan.startup.complete", "down", "lifespan.shutdown.failed"], log
''')

seed("c27-failed-without-cancel", "C27", [("routing.py", """        except BaseException:
            exc_text = traceback.format_exc()
            if started:""", """        except Exception:
            exc_text = traceback.format_exc()
            if started:""")],
     "startup code that ends with SystemExit or a cancellation (BaseException)",
     "no lifespan.startup.failed message is sent: the server waits for it forever",
     '''
import asyncio
from contextlib import asynccontextmanager
from starlette.applications import Starlette
log = []
@asynccontextmanager
async def lifespan(app):
    raise asyncio.CancelledError()
    yield
app = Starlette(lifespan=lifespan)
async def receive():
    return {"type": "lifespan.startup"}
async def send(m):
    log.append(m["type"])
try:
    asyncio.run(app({"type": "lifespan", "state": {}}, receive, send))
except BaseException:
    pass
assert log == ["lifespan.startup.failed"], log
''')

seed("c23-plain-file-inline", "C23", [("datastructures.py", """rolled_to_disk = getattr(self.file, "_rolled", True)""", """rolled_to_disk = getattr(self.file, "_rolled", False)""")],
     "an UploadFile made around an ordinary file object (no _rolled attribute)",
     "the ordinary file is read and written on the event loop",
     '''
import asyncio, threading, tempfile
from starlette.datastructures import UploadFile
class Slow:
    def __init__(self): self.threads = []
    def read(self, n=-1):
        self.threads.append(threading.current_thread() is threading.main_thread())
        return b""
async def main():
    f = Slow()
    await UploadFile(f).read()
    assert f.threads == [False], "read on the event loop"
asyncio.run(main())
''')

seed("c23-404-on-loop", "C23", [("staticfiles.py", """full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, "404.html")""", """full_path, stat_result = self.lookup_path("404.html")""")],
     "a missing file in html mode",
     "the lookup of 404.html blocks the event loop",
     '''
import asyncio, os, tempfile, threading
from starlette.staticfiles import StaticFiles
d = tempfile.mkdtemp()
open(os.path.join(d, "404.html"), "w").write("no")
seen = []
class S(StaticFiles):
    def lookup_path(self, path):
        seen.append(threading.current_thread() is threading.main_thread())
        return super().lookup_path(path)
async def receive():
    return {"type": "http.request"}
async def send(m):
    pass
asyncio.run(S(directory=d, html=True)({"type": "http", "method": "GET", "path": "/nope", "headers": [], "query_string": b""}, receive, send))
import shutil; shutil.rmtree(d)
assert seen and not any(seen), seen
''')

seed("c42-unix-socket-client", "C42", [("middleware/wsgi.py", """    if scope.get("client"):
""", """    if "client" in scope:
""")],
     "a server that sets client to None (unix socket)",
     "the request fails with TypeError",
     '''
import warnings; warnings.simplefilter("ignore")
from starlette.middleware.wsgi import build_environ
e = build_environ({"type": "http", "method": "GET", "path": "/", "query_string": b"", "http_version": "1.1", "headers": [], "client": None}, b"")
assert "REMOTE_ADDR" not in e
''')

seed("c42-repeated-set-cookie", "C42", [("middleware/wsgi.py", """                for name, value in response_headers
            ]""", """                for name, value in dict(response_headers).items()
            ]""")],
     "a WSGI application sending two Set-Cookie headers",
     "only the last one reaches the client",
     '''
import warnings; warnings.simplefilter("ignore")
from starlette.middleware.wsgi import WSGIMiddleware
from starlette.testclient import TestClient
def app(environ, start_response):
    start_response("200 OK", [("Set-Cookie", "a=1"), ("Set-Cookie", "b=2")])
    return [b"x"]
r = TestClient(WSGIMiddleware(app)).get("/")
assert r.headers.get_list("set-cookie") == ["a=1", "b=2"], r.headers
''')

seed("c22-processor-keeps-first", "C22", [("templating.py", """            context.update(context_processor(request))""", """            context = {**context_processor(request), **context}""")],
     "two context processors (or a context processor and the caller) giving the same key",
     "the value of the earlier one wins over the later one",
     '''
import jinja2
from starlette.requests import Request
from starlette.templating import Jinja2Templates
t = Jinja2Templates(env=jinja2.Environment(loader=jinja2.DictLoader({"a": "{{ x }}"})), context_processors=[lambda r: {"x": 1}, lambda r: {"x": 2}])
assert t.TemplateResponse(Request({"type": "http"}), "a").body == b"2"
''')

seed("c21-include-lossy", "C21", [("datastructures.py", """        params = MultiDict(parse_qsl(self.query, keep_blank_values=True))
        params.update({str(key): str(value) for key, value in kwargs.items()})
        query = urlencode(params.multi_items())
""", """        params = dict(parse_qsl(self.query, keep_blank_values=True))
        params.update({str(key): str(value) for key, value in kwargs.items()})
        query = urlencode(list(params.items()))
""")],
     "a query string with a repeated parameter",
     "the earlier values of a repeated parameter are dropped when another one is added",
     '''
from starlette.datastructures import URL
assert str(URL("http://h/?a=1&a=2").include_query_params(b=3)) == "http://h/?a=1&a=2&b=3"
''')

seed("c21-mask-by-text", "C21", [("datastructures.py", """            url = str(self.replace(password="********"))""", """            url = url.replace(self.password, "********", 1)""")],
     "a password that also occurs before the real one, in the user name or scheme",
     "the repr shows the password",
     '''
from starlette.datastructures import URL
assert repr(URL("http://admin:admin@h/")) == "URL('http://admin:********@h/')"
''')

seed("c21-default-port-any-scheme", "C21", [("datastructures.py", """                if port == default_port:
                    url =""", """                if port in (80, 443) and default_port:
                    url =""")],
     "a request without Host header to port 443 over http (or port 80 over https)",
     "the URL of the request leaves out a port that is not the default of its scheme",
     '''
from starlette.datastructures import URL
assert URL(scope={"type": "http", "scheme": "http", "server": ("h", 443), "path": "/", "headers": []}).port == 443
''')

# ---------------------------------------------------------------- C24
seed("c24-preflight-headers-shared", "C24", [("middleware/cors.py", """        headers = dict(self.preflight_headers)
""", """        headers = self.preflight_headers if self.allow_all_headers else dict(self.preflight_headers)
""")],
     "a CORS preflight of an allowed origin, then one of a disallowed origin, on a middleware that allows all headers",
     "the preflight response to a disallowed origin carries what was allowed to an earlier one",
     '''
import asyncio
from starlette.middleware.cors import CORSMiddleware
async def app(scope, receive, send): pass
m = CORSMiddleware(app, allow_origins=["https://a.test"], allow_headers=["*"])
async def ask(origin):
    out = []
    async def send(message): out.append(message)
    h = [(b"origin", origin), (b"access-control-request-method", b"GET")]
    await m({"type": "http", "method": "OPTIONS", "path": "/", "headers": h}, None, send)
    return dict(out[0]["headers"])
async def main():
    await ask(b"https://a.test")
    assert b"access-control-allow-origin" not in await ask(b"https://evil.test")
asyncio.run(main())
''')

seed("c24-exception-handler-used-once", "C24", [("_exception_handler.py", """                handler = status_handlers.get(exc.status_code)
""", """                handler = status_handlers.get(exc.status_code)
                if handler is not None and exc.headers:
                    status_handlers[exc.status_code] = functools.partial(_with_headers, handler, exc.headers)
"""), ("_exception_handler.py", """def wrap_app_handling_exceptions(""", """async def _with_headers(handler: typing.Any, headers: typing.Any, conn: typing.Any, exc: Exception) -> typing.Any:
    response = await handler(conn, exc) if is_async_callable(handler) else await run_in_threadpool(handler, conn, exc)
    for name, value in headers.items():
        response.headers.setdefault(name, value)
    return response


def wrap_app_handling_exceptions("""), ("_exception_handler.py", "import typing\n", "import functools\nimport typing\n")],
     "an HTTPException with headers handled by a status handler, then another of the same status without them",
     "the headers of one error response show up in later ones",
     '''
from starlette.applications import Starlette
from starlette.exceptions import HTTPException
from starlette.responses import PlainTextResponse
from starlette.routing import Route
from starlette.testclient import TestClient
async def page(request):
    who = request.query_params.get("who")
    raise HTTPException(403, headers={"x-who": who} if who else None)
async def handler(request, exc):
    return PlainTextResponse("no", status_code=403)
c = TestClient(Starlette(routes=[Route("/", page)], exception_handlers={403: handler}))
c.get("/?who=me")
assert "x-who" not in c.get("/").headers
''')

seed("c24-identity-responder-reused", "C24", [("middleware/gzip.py", """        self.compresslevel = compresslevel

    async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
        if scope["type"] != "http":""", """        self.compresslevel = compresslevel
        self.identity = IdentityResponder(app, minimum_size)

    async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
        if scope["type"] != "http":"""), ("middleware/gzip.py", """            responder = IdentityResponder(self.app, self.minimum_size)
""", """            responder = self.identity
""")],
     "two responses to clients without gzip support, one streaming while the other starts (or the second one empty)",
     "the responses of concurrent requests go to the wrong connection, and later responses lack their start message",
     '''
import asyncio
from starlette.middleware.gzip import GZipMiddleware
from starlette.responses import PlainTextResponse, StreamingResponse
gate = None
async def parts():
    yield b"one"
    await gate.wait()
    yield b"two"
async def app(scope, receive, send):
    r = StreamingResponse(parts()) if scope["path"] == "/s" else PlainTextResponse("x")
    await r(scope, receive, send)
m = GZipMiddleware(app)
async def ask(path, delay):
    out = []
    async def send(message): out.append(message)
    async def receive():
        await asyncio.sleep(9)
    await asyncio.sleep(delay)
    await m({"type": "http", "method": "GET", "path": path, "headers": [], "extensions": {}, "asgi": {"spec_version": "2.4"}}, receive, send)
    return b"".join(x.get("body", b"") for x in out)
async def main():
    global gate
    gate = asyncio.Event()
    t = asyncio.ensure_future(ask("/s", 0))
    u = asyncio.ensure_future(ask("/x", 0.05))
    await asyncio.sleep(0.2)
    gate.set()
    assert await t == b"onetwo" and await u == b"x"
asyncio.run(main())
''')

# ---------------------------------------------------------------- C39
seed("c39-multipart-required", "C39", [("requests.py", """    try:
        try:
            from python_multipart.multipart import parse_options_header
        except ModuleNotFoundError:  # pragma: no cover
            from multipart.multipart import parse_options_header
    except ModuleNotFoundError:  # pragma: no cover
        parse_options_header = None
""", """    try:
        from python_multipart.multipart import parse_options_header
    except ModuleNotFoundError:  # pragma: no cover
        from multipart.multipart import parse_options_header
""")],
     "an installation without the optional python-multipart package",
     "importing starlette.requests (and so everything else) fails",
     '''
import sys
for name in ("python_multipart", "python_multipart.multipart", "multipart", "multipart.multipart"):
    sys.modules[name] = None
import starlette.applications
''')

seed("c39-type-alias", "C39", [("types.py", """Scope = typing.""", """Scope: typing.TypeAlias = typing."""), ("types.py", """Message = typing.""", """Message: typing.TypeAlias = typing.""")],
     "Python 3.9, whose typing module has no TypeAlias",
     "no module of the package can be imported on the oldest declared Python version",
     '''
import starlette, sys, types, typing
old = types.ModuleType("typing")
for name in dir(typing):
    if name != "TypeAlias":
        setattr(old, name, getattr(typing, name))
sys.modules["typing"] = old
import starlette.types
''')

seed("c28-ws-state-shared", "C28", [("testclient.py", """                "subprotocols": subprotocols,
                "state": self.app_state.copy(),
""", """                "subprotocols": subprotocols,
                "state": self.app_state,
""")],
     "two websocket sessions of one client whose application writes to the state, or a session followed by a request",
     "what one connection wrote to its state shows up in the next: isolation the server would give is missing in tests",
     '''
from starlette.applications import Starlette
from starlette.routing import Route, WebSocketRoute
from starlette.responses import JSONResponse
from starlette.testclient import TestClient

async def ws(websocket):
    await websocket.accept()
    websocket.state.user = "secret"
    await websocket.close()

async def page(request):
    return JSONResponse(dict(request.scope["state"]))

with TestClient(Starlette(routes=[WebSocketRoute("/ws", ws), Route("/", page)])) as client:
    with client.websocket_connect("/ws"):
        pass
    assert client.get("/").json() == {}, client.get("/").json()
''')

seed("c28-close-while-bytes", "C28", [("testclient.py", """    def receive_bytes(self) -> bytes:
        message = self.receive()
        self._raise_on_close(message)
        return typing.cast(bytes, message["bytes"])
""", """    def receive_bytes(self) -> bytes:
        message = self.receive()
        return typing.cast(bytes, message.get("bytes", b""))
""")],
     "receive_bytes() called when the application has closed the session",
     "the test gets an empty message instead of WebSocketDisconnect with the code",
     '''
from starlette.testclient import TestClient
from starlette.websockets import WebSocketDisconnect

async def app(scope, receive, send):
    await receive()
    await send({"type": "websocket.accept"})
    await send({"type": "websocket.send", "bytes": b"x"})
    await send({"type": "websocket.close", "code": 1011})

with TestClient(app).websocket_connect("/") as ws:
    assert ws.receive_bytes() == b"x"
    try:
        ws.receive_bytes()
        raise SystemExit("no disconnect")
    except WebSocketDisconnect as exc:
        assert exc.code == 1011
''')

seed("c28-portal-outlives-client", "C28", [("testclient.py", """            @stack.callback
            def reset_portal() -> None:
                self.portal = None

            send: anyio""", """            send: anyio"""), ("testclient.py", """    def __exit__(self, *args: typing.Any) -> None:
        self.exit_stack.close()

    async def lifespan""", """    def __exit__(self, *args: typing.Any) -> None:
        self.exit_stack.close()
        self.portal = None

    async def lifespan""")],
     "a client whose startup or shutdown fails is used again",
     "the client keeps the portal of the event loop that is gone, and every later request fails with 'This portal is not running'",
     '''
from starlette.testclient import TestClient

async def app(scope, receive, send):
    if scope["type"] == "lifespan":
        raise ValueError("startup")
    await send({"type": "http.response.start", "status": 200, "headers": []})
    await send({"type": "http.response.body", "body": b"hi"})

client = TestClient(app)
try:
    with client:
        pass
except ValueError:
    pass
assert client.get("/").text == "hi"
''')

seed("c29-handler-kept-first", "C29", [("applications.py", """        self.exception_handlers[exc_class_or_status_code] = handler
""", """        self.exception_handlers.setdefault(exc_class_or_status_code, handler)
""")],
     "an exception handler is registered for a key that already has one",
     "the earlier handler keeps answering",
     '''
from starlette.applications import Starlette
from starlette.responses import PlainTextResponse
from starlette.testclient import TestClient

app = Starlette(exception_handlers={404: lambda request, exc: PlainTextResponse("default", 404)})
app.add_exception_handler(404, lambda request, exc: PlainTextResponse("mine", 404))
assert TestClient(app).get("/").text == "mine"
''')

seed("c29-shutdown-order", "C29", [("routing.py", """            self.on_shutdown.append(func)
""", """            self.on_shutdown.insert(0, func)
""")],
     "two shutdown handlers added with add_event_handler or on_event, the second relying on the first having run",
     "they run in the reverse order",
     '''
from starlette.applications import Starlette
from starlette.testclient import TestClient

log = []
app = Starlette()
app.add_event_handler("shutdown", lambda: log.append("flush"))
app.add_event_handler("shutdown", lambda: log.append("close"))
with TestClient(app):
    pass
assert log == ["flush", "close"], log
''')

seed("c29-callable-get-only", "C29", [("routing.py", """            # Endpoint is a class. Treat it as ASGI.
            self.app = endpoint
""", """            # Endpoint is a class. Treat it as ASGI.
            self.app = endpoint
            if methods is None and not inspect.isclass(endpoint):
                methods = ["GET"]
""")],
     "an ASGI application object (not a class) as the endpoint of a route without methods, and a request that is not GET or HEAD",
     "the request is answered 405 instead of reaching the application",
     '''
from starlette.routing import Route
from starlette.applications import Starlette
from starlette.responses import PlainTextResponse
from starlette.testclient import TestClient

class App:
    async def __call__(self, scope, receive, send):
        await PlainTextResponse(scope["method"])(scope, receive, send)

assert TestClient(Starlette(routes=[Route("/", App())])).post("/").text == "POST"
''')

seed("c41-tasks-shared", "C41", [("background.py", """        self.tasks = list(tasks) if tasks else []
""", """        self.tasks = tasks if isinstance(tasks, list) and tasks else list(tasks or [])
""")],
     "BackgroundTasks built from a list the application keeps for several requests, and a task added to it afterwards",
     "the added task becomes part of the shared list and runs again for every later request",
     '''
from starlette.background import BackgroundTask, BackgroundTasks
import asyncio

log = []
common = [BackgroundTask(log.append, "common")]
for i in range(2):
    tasks = BackgroundTasks(common)
    tasks.add_task(log.append, i)
    asyncio.run(tasks())
assert log == ["common", 0, "common", 1], log
''')

seed("c41-race-late-binding", "C41", [("concurrency.py", """        async def run(func: typing.Callable[[], typing.Coroutine]) -> None:  # type: ignore[type-arg]
            await func()
            task_group""", """        async def run(func: typing.Callable[..., typing.Coroutine], **_: object) -> None:  # type: ignore[type-arg]
            await func(**kwargs)
            task_group"""), ("concurrency.py", "task_group.start_soon(run, functools.partial(func, **kwargs))", "task_group.start_soon(functools.partial(run, **kwargs), func)")],
     "run_until_first_complete with several functions whose keyword arguments differ",
     "all are called with the arguments of the last",
     '''
import asyncio, warnings
from starlette.concurrency import run_until_first_complete

warnings.simplefilter("ignore")
log = []
async def one(who):
    log.append(("one", who))
    await asyncio.sleep(5)
async def two(who):
    log.append(("two", who))
    await asyncio.sleep(0.01)
asyncio.run(run_until_first_complete((one, {"who": "a"}), (two, {"who": "b"})))
assert sorted(log) == [("one", "a"), ("two", "b")], log
''')

seed("c41-scopes-kept", "C41", [("authentication.py", "self.scopes = [] if scopes is None else list(scopes)", "self.scopes = [] if scopes is None else scopes if isinstance(scopes, list) else list(scopes)")],
     "an authentication backend that builds the credentials of every user from one module-level list of scopes, and code that adds a scope to one user's credentials",
     "every later user gets that scope",
     '''
from starlette.authentication import AuthCredentials

DEFAULT = ["authenticated"]
admin = AuthCredentials(DEFAULT)
admin.scopes.append("admin")
assert AuthCredentials(DEFAULT).scopes == ["authenticated"]
''')

seed("c13-config-once", "C13", [("staticfiles.py", "            await self.check_config()\n            self.config_checked = True", "            self.config_checked = True\n            await self.check_config()")],
     "StaticFiles with check_dir=False whose directory is missing, and at least two requests",
     "only the first request reports the misconfiguration with RuntimeError; every later one is an ordinary 404",
     '''
import asyncio, tempfile, os
from starlette.staticfiles import StaticFiles
from starlette.exceptions import HTTPException

d = tempfile.mkdtemp()
app = StaticFiles(directory=os.path.join(d, "gone"), check_dir=False)
os.rmdir(d)
async def receive():
    return {"type": "http.request"}
async def send(m):
    pass
async def ask():
    try:
        await app({"type": "http", "method": "GET", "path": "/x", "headers": []}, receive, send)
    except RuntimeError:
        return "misconfigured"
    except HTTPException as exc:
        return exc.status_code
async def main():
    return [await ask() for _ in range(3)]
assert asyncio.run(main()) == ["misconfigured"] * 3
''')

seed("c20-close-unread", "C20", [("requests.py", "        if self._form is not None:  # pragma: no branch\n            await self._form.close()", "        await (self._form or await self.form()).close()")],
     "request.close() on a request whose form was never asked for",
     "the body is read and parsed on close, so closing can raise or swallow the body",
     '''
import asyncio
from starlette.requests import Request

async def receive():
    raise AssertionError("the body is read")
scope = {"type": "http", "method": "POST", "path": "/", "headers": [(b"content-type", b"application/x-www-form-urlencoded")]}
asyncio.run(Request(scope, receive).close())
''')

seed("c12-text-values", "C12", [("convertors.py", "        value = str(value)\n        assert \"/\" not in value, \"May not contain path separators\"\n        assert value, \"Must not be empty\"", "        assert value, \"Must not be empty\"\n        value = str(value)\n        assert \"/\" not in value, \"May not contain path separators\"")],
     "url_path_for with a falsy value that is no string (0 or False) for a plain parameter",
     "AssertionError although the text of the value is not empty",
     '''
from starlette.routing import Route, Router

router = Router([Route("/items/{item}", lambda request: None, name="item")])
assert str(router.url_path_for("item", item=7)) == "/items/7"
assert str(router.url_path_for("item", item=0)) == "/items/0"
''')

seed("c22-processor-request", "C22", [("templating.py", "            context.update(context_processor(request))", "            context.update({k: v for k, v in context_processor(request).items() if k not in context or k != \"request\"})")],
     "a context processor that replaces the request in the context (by a wrapper, say)",
     "its request is ignored while its other values are taken",
     '''
import jinja2, sys
from starlette.requests import Request
from starlette.templating import Jinja2Templates

scope = {"type": "http", "method": "GET", "path": "/", "headers": [], "who": "real"}
env = jinja2.Environment(loader=jinja2.DictLoader({"t": "{{ request.scope['who'] }}"}))
t = Jinja2Templates(env=env, context_processors=[lambda r: {"request": Request(dict(r.scope, who="wrapped"))}])
body = t.TemplateResponse(Request(scope), "t").body
assert body == b"wrapped", body
''')
