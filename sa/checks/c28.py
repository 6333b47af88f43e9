"""The test client shows the application what was requested and the test what the application sent.

A client program builds TestClient over a scripted application; httpx, the blocking portal, memory streams, cancel scopes and exit stacks are model
classes of the client program.  Tables of requests, application scripts and session operations are propagated through the analysed client, and the
scope, the messages the application received, and the response or exception the test gets are compared with what the ASGI specification makes of them.
"""
from ..lib import fold_ext
from ..mw import *
from .c20 import value
from .c30 import call, lit
from .common import *
from ..tasks import TaskEnv

CLIENT28 = '''
import anyio
from starlette.testclient import TestClient, WebSocketDenialResponse
from starlette.websockets import WebSocketDisconnect

class Forever(BaseException):
    pass

class Blocked(BaseException):
    pass

class HttpxResponse:
    def __init__(self, status_code=None, headers=None, content=None, stream=None, request=None):
        self.status_code = status_code
        self.headers = headers
        self.content = content if stream is None else stream
        self.request = request

class HttpxTransport:
    pass

class HttpxURL:
    def __init__(self, parts):
        self.scheme = parts["scheme"]
        self.netloc = parts["netloc"]
        self.host = parts["host"]
        self.port = parts["port"]
        self.path = parts["path"]
        self.raw_path = parts["raw_path"]
        self.query = parts["query"]

class HttpxHeaders:
    def __init__(self, items):
        self.items_ = items
        self.raw = [(k.encode("latin-1"), v.encode("latin-1")) for k, v in items]
    def multi_items(self):
        return list(self.items_)
    def __contains__(self, key):
        return any([k.lower() == key.lower() for k, v in self.items_])
    def get(self, key, default=None):
        values = [v for k, v in self.items_ if k.lower() == key.lower()]
        return ", ".join(values) if values else default
    def __getitem__(self, key):
        return ", ".join([v for k, v in self.items_ if k.lower() == key.lower()])

class HttpxRequest:
    def __init__(self, method, parts, headers, body):
        self.method = method
        self.url = HttpxURL(parts)
        self.headers = HttpxHeaders(headers)
        self.body = body
    def read(self):
        return self.body

class HttpxClient:
    def __init__(self, **kwargs):
        self.settings = kwargs
        self.calls = []
        self.next = None
    def _merge_url(self, url):
        return url
    def request(self, method, url, **kwargs):
        self.calls.append([method, url, kwargs])
        if self.next is None:
            return "answer"
        parts, more = self.next
        headers = [("host", parts["netloc"].decode())] + list(more) + [(k, v) for k, v in (kwargs.get("headers") or {}).items()]
        return self.settings["transport"].handle_request(HttpxRequest(method, parts, headers, b""))
    def get(self, url, **kwargs):
        return self.request("GET", url, **kwargs)
    def options(self, url, **kwargs):
        return self.request("OPTIONS", url, **kwargs)
    def head(self, url, **kwargs):
        return self.request("HEAD", url, **kwargs)
    def post(self, url, **kwargs):
        return self.request("POST", url, **kwargs)
    def put(self, url, **kwargs):
        return self.request("PUT", url, **kwargs)
    def patch(self, url, **kwargs):
        return self.request("PATCH", url, **kwargs)
    def delete(self, url, **kwargs):
        return self.request("DELETE", url, **kwargs)

class Event:
    def __init__(self):
        self.flag = False
    def set(self):
        self.flag = True
    def is_set(self):
        return self.flag
    async def wait(self):
        if not self.flag:
            raise Blocked("wait")

class Scope:
    def __init__(self):
        self.cancelled = False
    def cancel(self):
        self.cancelled = True
    def __enter__(self):
        return self
    def __exit__(self, t, e, tb):
        return False

class Channel:
    def __init__(self):
        self.items = []
        self.sent = []
        self.closed = False

class SendStream:
    def __init__(self, chan):
        self.chan = chan
    async def send(self, item):
        if self.chan.closed:
            raise anyio.ClosedResourceError
        self.chan.sent.append(item)
        self.chan.items.append(item)
    def send_nowait(self, item):
        self.chan.sent.append(item)
        self.chan.items.append(item)
    def close(self):
        self.chan.closed = True
    def __enter__(self):
        return self
    def __exit__(self, t, e, tb):
        if not isinstance(e, Forever):
            self.chan.closed = True

class ReceiveStream:
    def __init__(self, chan):
        self.chan = chan
    async def receive(self):
        if self.chan.closed:
            raise anyio.ClosedResourceError
        if self.chan.items:
            return self.chan.items.pop(0)
        raise Blocked("receive")
    def close(self):
        self.chan.closed = True
    def __enter__(self):
        return self
    def __exit__(self, t, e, tb):
        if not isinstance(e, Forever):
            self.chan.closed = True

def make_streams(size=0):
    chan = Channel()
    env_stream(chan)
    return SendStream(chan), ReceiveStream(chan)

class Stapled:
    def __init__(self, send_stream, receive_stream):
        self.send_stream = send_stream
        self.receive_stream = receive_stream
    async def send(self, item):
        await self.send_stream.send(item)
    async def receive(self):
        return await self.receive_stream.receive()
    def close(self):
        self.send_stream.close()
        self.receive_stream.close()

class Future:
    def __init__(self):
        self.exc = None
        self.scope = None
    def result(self, timeout=None):
        if self.scope is not None and not self.scope.cancelled:
            raise Blocked("the session is not cancelled")
        if self.exc is not None:
            raise self.exc
        return None

class Status:
    def __init__(self):
        self.value = None
        self.seen = False
    def started(self, value=None):
        self.seen = True
        self.value = value

class Portal:
    def __init__(self, kwargs):
        self.kwargs = kwargs
        self.open = True
    def call(self, fn, *args):
        if not self.open:
            raise RuntimeError("This portal is not running")
        return env_drive(fn(*args))
    def start_task(self, fn, *args):
        status, future = Status(), Future()
        try:
            env_drive(fn(*args, task_status=status))
        except Forever:
            future.scope = status.value
        except Blocked:
            raise
        except BaseException as exc:
            if not status.seen:
                raise
            future.exc = exc
        return future, status.value
    def start_task_soon(self, fn, *args):
        future = Future()
        try:
            env_drive(fn(*args))
        except Blocked:
            raise
        except BaseException as exc:
            future.exc = exc
        return future
    def __enter__(self):
        return self
    def __exit__(self, t, e, tb):
        self.open = False

class ExitStack:
    def __init__(self):
        self.todo = []
    def enter_context(self, cm):
        value = cm.__enter__()
        self.todo.append((True, cm, ()))
        return value
    def callback(self, fn, *args):
        self.todo.append((False, fn, args))
        return fn
    def pop_all(self):
        other = ExitStack()
        other.todo = self.todo
        self.todo = []
        return other
    def close(self):
        self.__exit__(None, None, None)
    def __enter__(self):
        return self
    def __exit__(self, t, e, tb):
        pending = e
        while self.todo:
            enter, x, args = self.todo.pop()
            try:
                if enter:
                    if x.__exit__(None if pending is None else pending.__class__, pending, None):
                        pending = None
                else:
                    x(*args)
            except BaseException as exc:
                pending = exc
        if pending is not None and pending is not e:
            raise pending
        return e is not None and pending is None

class Bytes:
    def __init__(self, data=b""):
        self.data = data
        self.pos = len(data)
        self.rewound = False
    def write(self, data):
        self.data = self.data + data
        return len(data)
    def seek(self, n):
        self.rewound = True
        self.pos = n
        return n
    def read(self):
        return self.data if self.rewound or not self.data else b""
    def getvalue(self):
        return self.data

async def forever():
    raise Forever()

def stream(data):
    return data

class App:
    def __init__(self, script, state=None):
        self.script = script
        self.scopes = []
        self.got = []
        self.put = state
        self.states = []
    async def __call__(self, scope, receive, send):
        self.scopes.append({k: scope[k] for k in scope})
        if self.put is not None:
            if scope["type"] == "lifespan":
                for k in self.put:
                    scope["state"][k] = self.put[k]
            else:
                self.states.append({k: scope["state"][k] for k in scope["state"]})
                scope["state"]["own"] = len(self.states)
        for step in self.script[scope["type"]]:
            if step == "receive":
                self.got.append(await receive())
            elif step == "raise":
                raise ValueError("broken")
            else:
                await send(step)

class App2:
    def __init__(self, inner):
        self.inner = inner
    def __call__(self, scope):
        async def instance(receive, send):
            await self.inner(scope, receive, send)
        return instance

def make(app, kwargs):
    return TestClient(app, **kwargs)

def outcome(exc):
    name = exc.__class__.__name__
    if isinstance(exc, WebSocketDenialResponse):
        return ["denied", exc.status_code, exc.headers, exc.content]
    if isinstance(exc, WebSocketDisconnect):
        return ["closed", exc.code, exc.reason]
    return ["raised", name]

def ask(kwargs, parts, method, headers, body, script, times):
    app = App(script)
    client = make(app, kwargs)
    results = []
    for n in range(times):
        request = HttpxRequest(method, parts, headers, body)
        try:
            r = client.settings["transport"].handle_request(request)
            results.append(["response", r.status_code, r.headers, r.content, r.request is request, getattr(r, "template", None), getattr(r, "context", None)])
        except BaseException as exc:
            results.append(outcome(exc))
    return [results, app.scopes, app.got, client.settings, [s is t for s in app.scopes for t in app.scopes if "state" in s and s["state"] is t.get("state")], env_portals()]

def ask2(kwargs, parts, method, headers, body, script, times):
    app = App(script)
    client = make(App2(app), kwargs)
    try:
        r = client.settings["transport"].handle_request(HttpxRequest(method, parts, headers, body))
        results = [["response", r.status_code, r.headers, r.content, True, None, None]]
    except BaseException as exc:
        results = [outcome(exc)]
    return [results, app.scopes, app.got, client.settings, [], env_portals()]

def forward(name, url, kwargs):
    client = make(App({}), {})
    r = getattr(client, name)(url, **kwargs)
    return [client.calls, r]

def forward_request(method, url, kwargs):
    client = make(App({}), {})
    r = client.request(method, url, **kwargs)
    return [client.calls, r]

def session(kwargs, url, parts, headers, subprotocols, more, script, ops):
    app = App(script)
    client = make(app, kwargs)
    client.next = (parts, headers)
    results = []
    try:
        with client.websocket_connect(url, subprotocols, **more) as ws:
            results.append(["accepted", ws.accepted_subprotocol, ws.extra_headers])
            for name, args in ops:
                try:
                    results.append([name, getattr(ws, name)(*args)])
                except Exception as exc:
                    results.append([name, outcome(exc)])
            results.append("left")
    except BaseException as exc:
        results.append(outcome(exc))
    return [results, app.scopes, env_streams(), client.calls]

def lifespan(kwargs, state, script, parts, asks, wparts):
    app = App(script, state)
    client = make(app, kwargs)
    results = []
    try:
        with client as c:
            results.append("entered")
            results.append(c is client)
            results.append([list(x) for x in env_streams()])
            for n in range(asks):
                r = client.settings["transport"].handle_request(HttpxRequest("GET", parts, [("host", "testserver")], b""))
                results.append(r.status_code)
            client.next = (wparts, [])
            for n in range(2):
                with client.websocket_connect("/ws") as ws:
                    pass
            results.append(env_portals())
        results.append("left")
    except BaseException as exc:
        results.append(outcome(exc))
    return [results, app.scopes, env_streams(), app.states, client.portal is None]
'''
MODELS = {"httpx.Client": "HttpxClient", "httpx.Response": "HttpxResponse", "httpx.BaseTransport": "HttpxTransport"}
EXT = {"anyio.Event": "Event", "anyio.CancelScope": "Scope", "anyio.create_memory_object_stream": "make_streams", "anyio.streams.stapled.StapledObjectStream": "Stapled", "contextlib.ExitStack": "ExitStack",
       "io.BytesIO": "Bytes", "anyio.sleep_forever": "forever", "httpx.ByteStream": "stream", "httpx.Response": "HttpxResponse", "httpx.Client": "HttpxClient"}


class Env28(TaskEnv):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "anyio.from_thread.start_blocking_portal":
            ref = eng.new_dict(st, "portal", {C(k): v for k, v in kwargs.items()})
            outs = list(eng.call(st, self.client_fn(eng, st, "Portal"), [ref], {}, node))
            for k, s, v in outs:
                s.mon["portals"] = s.mon.get("portals", ()) + (ref,)
            return outs
        if q in EXT:
            return list(eng.call(st, self.client_fn(eng, st, EXT[q]), args, kwargs, node))
        if q in ("urllib.parse.unquote", "urllib.parse.urljoin", "json.dumps", "json.loads") and all(is_c(eng.known(st, a)) or a.tag == "ref" for a in args):
            r = fold_ext(eng, st, q, [eng.known(st, a) for a in args], kwargs, node)
            if r is not None:
                return r
            if all(is_c(eng.known(st, a)) for a in args):
                import urllib.parse
                f = {"unquote": urllib.parse.unquote, "urljoin": urllib.parse.urljoin}.get(q.rsplit(".")[-1])
                if f is not None:
                    return ok(st, C(f(*[cval(eng.known(st, a)) for a in args])))
        return super().on_ext(eng, st, q, args, kwargs, node)

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "env_drive":
            return list(eng.await_(st, args[0], node)) if eng_awaitable(eng, st, args[0]) else ok(st, args[0])
        if name == "env_stream":
            st.mon["streams"] = st.mon.get("streams", ()) + (args[0],)
            return ok(st, NONE)
        if name == "env_streams":
            out = []
            for ch in st.mon.get("streams", ()):
                out.append(st.heap[ch].d[C("sent")] if C("sent") in st.heap[ch].d else st.heap[ch].d["sent"])
            return ok(st, eng.new_list(st, "streams", out))
        if name == "env_portals":
            return ok(st, eng.new_list(st, "portals", list(st.mon.get("portals", ()))))
        return super().on_call(eng, st, name, args, kwargs, node)


def eng_awaitable(eng, st, v):
    return v.tag in ("coro",) or (v.tag == "t" and v.a[0] in ("coro", "aw"))


def start(ctx):
    eng = ctx.engine(Env28())
    eng.concrete = 60
    eng.max_steps = 300_000
    p = eng.p
    for ci in p.cls_by_node.values():
        ci._mro = None
        ci.bases = [Cls(p.client.defs[MODELS[b.a[0]]][1]) if isinstance(b, V) and b.tag == "ext" and b.a[0] in MODELS else b for b in ci.bases]
    return eng, eng.start_state()


def play(ctx, fn, *args):
    eng, st = start(ctx)
    out = call(ctx, eng, st, fn, [lit(eng, st, a) for a in args])
    return eng, [(k, s, value(s, v) if isinstance(v, V) else v) for k, s, v in out]


def url(scheme, netloc, raw, query=""):
    """what httpx makes of a URL: path decoded once, raw_path and query as sent, the port only if it is not the scheme's"""
    from urllib.parse import unquote
    host, port = netloc, None
    if ":" in netloc and not netloc.endswith("]"):
        host, port = netloc.rsplit(":", 1)
    return {"scheme": scheme, "netloc": netloc.encode(), "host": host.strip("[]"), "port": None if port is None else int(port), "path": unquote(raw), "raw_path": (raw + ("?" + query if query else "")).encode(), "query": query.encode()}


START = {"type": "http.response.start", "status": 200, "headers": [(b"x", b"1"), (b"x", b"2"), (b"set-cookie", b"k=\xe9")]}
BODY = {"type": "http.response.body", "body": b"hi"}
PART = {"type": "http.response.body", "body": b"part ", "more_body": True}
DEBUG = {"type": "http.response.debug", "info": {"template": "page", "context": {"a": 1}}}
HOST = ("host", "testserver")
ADDRESS = [(parts, host, port) for parts, host, port in (
    (url("http", "testserver", "/"), "testserver", 80), (url("https", "testserver", "/a/b", "x=1&y=%20z&y="), "testserver", 443), (url("http", "example.org:8080", "/caf%C3%A9%20x", "q=%C3%A9"), "example.org", 8080),
    (url("https", "example.org:80", "/a%2520b%2Fc"), "example.org", 80), (url("http", "10.0.0.1:443", "/%25"), "10.0.0.1", 443), (url("http", "[::1]", "/"), "::1", 80), (url("http", "[fe80::2]:81", "/"), "fe80::2", 81))]


def headers_of(hs):
    return [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in hs]


def plain(x):
    """lists and tuples alike"""
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def headers_text(hs):
    """header pairs as bytes, whichever of text or bytes the response was given"""
    if not isinstance(hs, list):
        return hs
    f = lambda t: t if isinstance(t, bytes) else t.encode("utf-8") if isinstance(t, str) and not t.startswith("<") else repr(t)
    return [[f(k), f(v)] for k, v in hs]


class Judge:
    def __init__(self, ctx):
        self.ctx = ctx

    def one(self, what, eng, outs, kinds=("ok",)):
        """the single outcome of a play"""
        if len(outs) > 1:      # external calls may raise anything, but everything here is constant
            outs = [o for o in outs if not any(" raises " in x for x in o[1].path())] or outs
        if len(outs) != 1:
            if any("<" in repr(v) for k, s, v in outs):
                self.ctx.undecided(f"{what}: {len(outs)} outcomes")
                return None
            k, s, v = outs[1]
            eng.report("fidelity", "starlette.testclient.TestClient", s, f"{what}: {len(outs)} outcomes, {str(outs[0][2])[:80]} and {str(v)[:80]}")
            return None
        k, s, v = outs[0]
        self.ctx.oblige(what.split()[0].strip(":"))
        self.ctx.oblige("play")
        if k not in kinds:
            eng.report("fidelity", "starlette.testclient.TestClient", s, f"{what}: {k} {str(v)[:80]}")
            return None
        return s, plain(v)

    def eq(self, rule, eng, s, what, got, want):
        self.ctx.oblige("value")
        if plain(got) != plain(want):
            eng.report(rule, "starlette.testclient.TestClient", s, f"{what}: {str(got)[:160]} instead of {str(want)[:160]}")


def check_scope(j, eng, s, what, scope, want):
    for k, v in want.items():
        got = scope.get(k, "absent") if isinstance(scope, dict) else scope
        if k == "extensions":
            for x in v:
                j.eq("scope", eng, s, f"{what}: extension {x}", isinstance(got, dict) and x in got, True)
        else:
            j.eq("scope", eng, s, f"{what}: {k} in the scope", got, v)


def http(ctx, j):
    for n, (parts, host, port) in enumerate(ADDRESS):
        for kwargs, method, hs, body, two in (({}, "GET", [HOST], b"", False), ({"root_path": "/root", "client": ("1.2.3.4", 9), "backend": "trio"}, "POST", [HOST, ("X-A", "1"), ("x-a", "2"), ("x-a", "2"), ("Cookie", "k=\xe9")], b"body \xff", n == 2)):
            what = f"{method} {parts['scheme']}://{parts['netloc'].decode()}{parts['raw_path'].decode()}"
            eng, outs = play(ctx, "ask2" if two else "ask", kwargs, parts, method, hs, body, {"http": ["receive", START, BODY, "receive"]}, 1)
            r = j.one(what, eng, outs)
            if r is None:
                continue
            s, (results, scopes, got, settings, shared, portals) = r
            j.eq("fidelity", eng, s, f"{what}: number of calls of the application", len(scopes), 1)
            if not scopes:
                continue
            check_scope(j, eng, s, what, scopes[0], {"type": "http", "method": method, "path": parts["path"], "raw_path": parts["raw_path"].split(b"?")[0], "root_path": kwargs.get("root_path", ""), "scheme": parts["scheme"], "query_string": parts["query"],
                        "headers": headers_of(hs), "client": kwargs.get("client", ("testclient", 50000)), "server": [host, port], "extensions": ["http.response.debug"], "state": {}, "http_version": "1.1"})
            j.eq("messages", eng, s, f"{what}: messages received", [{"more_body": False, **m} if m.get("type") == "http.request" else {"type": m.get("type")} for m in got], [{"type": "http.request", "body": body, "more_body": False}, {"type": "http.disconnect"}])
            j.eq("fidelity", eng, s, f"{what}: event loop", [{"backend": p.get("backend"), "backend_options": p.get("backend_options")} for p in portals], [{"backend": kwargs.get("backend", "asyncio"), "backend_options": {}}])
            response(j, eng, s, what, results[0], 200, START["headers"], b"hi", None)
    # messages
    parts = ADDRESS[0][0]
    ok_ = lambda content, status=200, hs=START["headers"], tpl=None: ("response", status, hs, content, tpl)
    bad = lambda *names: ("raised",) + names
    bare = {"type": "http.response.start", "status": 204}
    for name, script, method, loud, quiet in (
            ("one body", [START, BODY], "GET", ok_(b"hi"), None), ("parts", [START, PART, PART, BODY], "GET", ok_(b"part part hi"), None), ("optional fields", [bare, {"type": "http.response.body"}], "GET", ok_(b"", 204, []), None),
            ("empty last part", [START, PART, {"type": "http.response.body"}], "GET", ok_(b"part "), None), ("head", [START, PART, BODY], "HEAD", ok_(b""), None), ("debug", [DEBUG, START, BODY], "GET", ok_(b"hi", tpl=["page", {"a": 1}]), None),
            ("raise first", ["raise"], "GET", bad("ValueError"), ok_(b"", 500, [])), ("raise after receive", ["receive", "raise"], "GET", bad("ValueError"), ok_(b"", 500, [])), ("raise after response", [START, PART, BODY, "raise"], "GET", bad("ValueError"), ok_(b"part hi")),
            ("raise after start", [START, "raise"], "GET", bad("ValueError"), ok_(b"")), ("nothing", ["receive"], "GET", bad("AssertionError"), ok_(b"", 500, [])), ("two starts", [START, START, BODY], "GET", bad("AssertionError"), ok_(b"")),
            ("body first", [BODY, START], "GET", bad("AssertionError"), ok_(b"", 500, [])), ("body after the end", [START, BODY, BODY], "GET", bad("AssertionError"), ok_(b"hi")), ("no early disconnect", ["receive", "receive", START, BODY], "GET", bad("Blocked"), None),
            ("no early disconnect", ["receive", START, PART, "receive", BODY], "GET", bad("Blocked"), None)):
        for quietly in (False, True):
            want = quiet if quietly and quiet is not None else loud
            if quietly and loud[-1] == "Blocked":
                continue
            what = f"application: {name}" + (", server exceptions not raised" if quietly else "")
            eng, outs = play(ctx, "ask", {"raise_server_exceptions": False} if quietly else {}, parts, method, [HOST], b"data", {"http": script}, 2 if want[0] == "response" else 1)
            r = j.one(what, eng, outs)
            if r is None:
                continue
            s, (results, scopes, got, settings, shared, portals) = r
            for res in results:
                if want[0] == "raised":
                    j.eq("messages", eng, s, what, res, list(want))
                else:
                    response(j, eng, s, what, res, *want[1:])
            if len(scopes) == 2:
                j.eq("scope", eng, s, f"{what}: state dictionaries of two requests are two", shared, [True, True])


def response(j, eng, s, what, res, status, hs, content, tpl):
    j.eq("response", eng, s, f"{what}: result", res[0], "response")
    if res[0] != "response":
        return
    j.eq("response", eng, s, f"{what}: status", res[1], status)
    j.eq("response", eng, s, f"{what}: headers", headers_text(res[2]), [list(x) for x in hs])
    j.eq("response", eng, s, f"{what}: content", res[3], content)
    j.eq("response", eng, s, f"{what}: belongs to the request", res[4], True)
    j.eq("response", eng, s, f"{what}: template and context", res[5:7], tpl or [None, None])


def verbs(ctx, j):
    given = {"params": {"a": "1"}, "headers": {"x": "1"}, "cookies": {"c": "1"}, "auth": ("u", "p"), "follow_redirects": False, "extensions": {"e": 1}}
    body = {"content": b"c", "data": {"d": "1"}, "files": {"f": b"x"}, "json": [1]}
    for name in ("get", "options", "head", "post", "put", "patch", "delete", "request"):
        for kwargs in ([given, {}] + ([{**given, **body}] if name in ("post", "put", "patch", "request") else [])):
            what = f"client.{name} with {sorted(kwargs)}"
            eng, outs = play(ctx, "forward_request", "LIST", "/x", kwargs) if name == "request" else play(ctx, "forward", name, "/x", kwargs)
            for k, s, v in outs:
                ctx.oblige("play")
                if k != "ok":
                    eng.report("forwarding", f"starlette.testclient.TestClient.{name}", s, f"{what}: {k}")
                    continue
                calls, result = plain(v)
                j.eq("forwarding", eng, s, f"{what}: calls", [c[:2] for c in calls], [["LIST" if name == "request" else name.upper(), "/x"]])
                j.eq("forwarding", eng, s, f"{what}: result", result, "answer")
                for c in calls:
                    j.eq("forwarding", eng, s, f"{what}: arguments", {a: c[2].get(a, "absent") for a in kwargs}, kwargs)
    # options of the client
    for kwargs in ({}, {"headers": {"a": "b"}, "base_url": "https://x.org", "cookies": {"c": "d"}, "follow_redirects": False}, {"headers": {"user-agent": "mine"}}):
        eng, outs = play(ctx, "ask", kwargs, ADDRESS[0][0], "GET", [HOST], b"", {"http": [START, BODY]}, 1)
        r = j.one(f"client {sorted(kwargs)}", eng, outs)
        if r is not None:
            s, v = r
            want = {"base_url": "http://testserver", "cookies": None, "follow_redirects": True, **kwargs}
            want["headers"] = {"user-agent": "testclient", **want.get("headers", {})}
            j.eq("forwarding", eng, s, f"client {sorted(kwargs)}: options", {k: v[3].get(k, "absent") for k in want}, want)


ACCEPT = {"type": "websocket.accept"}
TEXT = lambda x: {"type": "websocket.send", "text": x}
BIN = lambda x: {"type": "websocket.send", "bytes": x}
CONNECT = {"type": "websocket.connect"}
LEAVE = {"type": "websocket.disconnect", "code": 1000, "reason": None}


def sockets(ctx, j):
    wparts = url("ws", "testserver", "/ws%20x", "q=1")
    deny = lambda **kw: {"type": "websocket.http.response.start", "status": 403, **kw}
    body = lambda **kw: {"type": "websocket.http.response.body", **kw}
    cases = [
        ("receive", [{**ACCEPT, "subprotocol": "b", "headers": [(b"h", b"v")]}, TEXT("hello"), BIN(b"raw"), TEXT('{"a":1}'), BIN(b"[2]"), {"type": "websocket.close", "code": 4000, "reason": "bye"}],
         [("receive_text", ()), ("receive_bytes", ()), ("receive_json", ()), ("receive_json", ("binary",)), ("receive_text", ())],
         [["accepted", "b", [[b"h", b"v"]]], ["receive_text", "hello"], ["receive_bytes", b"raw"], ["receive_json", {"a": 1}], ["receive_json", [2]], ["receive_text", ["closed", 4000, "bye"]], "left"], [CONNECT, LEAVE]),
        ("close", [ACCEPT, {"type": "websocket.close"}, {"type": "websocket.close", "code": 1001}, {"type": "websocket.close", "reason": "r"}], [("receive_bytes", ()), ("receive_json", ()), ("receive_text", ())],
         [["accepted", None, None], ["receive_bytes", ["closed", 1000, ""]], ["receive_json", ["closed", 1001, ""]], ["receive_text", ["closed", 1000, "r"]], "left"], [CONNECT, LEAVE]),
        ("raw", [ACCEPT, TEXT("a"), BIN(b"b"), {"type": "websocket.close", "code": 1001}], [("receive", ()), ("receive", ()), ("receive", ())],
         [["accepted", None, None], ["receive", TEXT("a")], ["receive", BIN(b"b")], ["receive", {"type": "websocket.close", "code": 1001}], "left"], [CONNECT, LEAVE]),
        ("send", [ACCEPT], [("send_text", ("x",)), ("send_bytes", (b"y",)), ("send_json", ({"a": "\xe9"},)), ("send_json", ([1, 2], "binary")), ("send", ({"type": "websocket.receive", "text": "z"},)), ("close", (4001, "why")), ("close", ())],
         [["accepted", None, None]] + [[n, None] for n in ("send_text", "send_bytes", "send_json", "send_json", "send", "close", "close")] + ["left"],
         [CONNECT, {"type": "websocket.receive", "text": "x"}, {"type": "websocket.receive", "bytes": b"y"}, {"type": "websocket.receive", "text": '{"a":"\xe9"}'}, {"type": "websocket.receive", "bytes": b"[1,2]"}, {"type": "websocket.receive", "text": "z"},
          {"type": "websocket.disconnect", "code": 4001, "reason": "why"}, LEAVE, LEAVE]),
        ("rejected", [{"type": "websocket.close", "code": 1008, "reason": "no"}], [], [["closed", 1008, "no"]], [CONNECT]),
        ("rejected plainly", [{"type": "websocket.close"}], [], [["closed", 1000, ""]], [CONNECT]),
        ("denied", [deny(headers=[(b"a", b"b")]), body(body=b"no ", more_body=True), body(body=b"way", more_body=False)], [], [["denied", 403, [[b"a", b"b"]], b"no way"]], [CONNECT]),
        ("denied, optional fields", [deny(), body()], [], [["denied", 403, [], b""]], [CONNECT]),
        ("denied, empty last part", [deny(), body(body=b"no", more_body=True), body()], [], [["denied", 403, [], b"no"]], [CONNECT]),
        ("fails first", ["raise"], [], [["raised", "ValueError"]], None),
        ("fails after accept", [ACCEPT, "raise"], [], [["raised", "ValueError"]], None),
    ]
    for name, script, ops, want, queue in cases:
        for n, (kwargs, target, subprotocols, more) in enumerate((({}, "/ws%20x?q=1", None, {}), ({"root_path": "/r", "client": ("c", 1)}, "ws://testserver/ws%20x?q=1", ["a", "b"], {"headers": {"x-one": "1"}}))):
            what = f"websocket {name}" + (" (options)" if n else "")
            eng, outs = play(ctx, "session", kwargs, target, wparts, [], subprotocols, more, {"websocket": script}, ops)
            r = j.one(what, eng, outs)
            if r is None:
                continue
            s, (results, scopes, streams, calls) = r
            j.eq("session", eng, s, f"{what}: what the test sees", results, want)
            if queue is not None:
                toapp = [x for x in streams if CONNECT in x]
                j.eq("session", eng, s, f"{what}: messages to the application", toapp, [queue])
            j.eq("session", eng, s, f"{what}: requests", [c[:2] for c in calls], [["GET", "ws://testserver/ws%20x?q=1"]])
            if not scopes:
                eng.report("session", "starlette.testclient.TestClient", s, f"{what}: the application is not called")
                continue
            want_headers = {"connection": "upgrade", "sec-websocket-key": "testserver==", "sec-websocket-version": "13", **({"sec-websocket-protocol": "a, b"} if n else {}), **more.get("headers", {})}
            sent = dict((tuple(x) for x in scopes[0].get("headers", [])))
            j.eq("scope", eng, s, f"{what}: headers", sent, {k.encode(): v.encode() for k, v in {"host": "testserver", **want_headers}.items()})
            check_scope(j, eng, s, what, scopes[0], {"type": "websocket", "path": "/ws x", "raw_path": b"/ws%20x", "root_path": kwargs.get("root_path", ""), "scheme": "ws", "query_string": b"q=1", "client": kwargs.get("client", ("testclient", 50000)),
                        "server": ["testserver", 80], "subprotocols": subprotocols or [], "state": {}, "extensions": ["websocket.http.response"]})
    for target, parts, server in (("wss://testserver/a", url("wss", "testserver", "/a"), ["testserver", 443]), ("wss://testserver:9000/a", url("wss", "testserver:9000", "/a"), ["testserver", 9000]), ("ws://example.org:444/a", url("ws", "example.org:444", "/a"), ["example.org", 444])):
        what = f"websocket {target}"
        eng, outs = play(ctx, "session", {}, target, parts, [], None, {}, {"websocket": cases[0][1]}, cases[0][2])
        r = j.one(what, eng, outs)
        if r is None:
            continue
        s, (results, scopes, streams, calls) = r
        if not scopes:
            eng.report("session", "starlette.testclient.TestClient", s, f"{what}: the application is not called")
            continue
        check_scope(j, eng, s, what, scopes[0], {"type": "websocket", "path": "/a", "scheme": parts["scheme"], "server": server})


def lifespans(ctx, j):
    up, down = {"type": "lifespan.startup.complete"}, {"type": "lifespan.shutdown.complete"}
    parts = ADDRESS[0][0]
    first = [{"type": "lifespan.startup"}]
    both = first + [{"type": "lifespan.shutdown"}]
    for name, script, state, want in (
            ("runs", [up, down], {"k": "v"}, "fine"), ("startup fails", [{"type": "lifespan.startup.failed", "message": "m"}, "raise"], None, "startup"), ("startup raises", ["raise"], None, "startup"),
            ("shutdown fails", [up, {"type": "lifespan.shutdown.failed", "message": "m"}, "raise"], None, "shutdown"), ("shutdown raises", [up, "raise"], None, "shutdown")):
        eng, outs = play(ctx, "lifespan", {"backend": "trio"}, state, {"lifespan": script, "http": [START, BODY], "websocket": [ACCEPT]}, parts, 2, url("ws", "testserver", "/ws"))
        what = f"lifespan {name}"
        r = j.one(what, eng, outs)
        if r is None:
            continue
        s, (results, scopes, streams, states, closed) = r
        j.eq("lifespan", eng, s, f"{what}: the client no longer uses the event loop that is gone", closed, True)
        toapp = [x for x in streams if first[0] in x]
        if want == "startup":
            j.eq("lifespan", eng, s, f"{what}: what the test sees", results, [["raised", "ValueError"]])
            j.eq("lifespan", eng, s, f"{what}: messages to the application", toapp, [first])
            continue
        j.eq("lifespan", eng, s, f"{what}: entering", results[:2], ["entered", True])
        if len(results) > 2 and results[0] == "entered":
            j.eq("lifespan", eng, s, f"{what}: messages to the application before leaving", [x for x in results[2] if first[0] in x], [first])
            j.eq("lifespan", eng, s, f"{what}: event loops while open", results[5:6], [[{"backend": "trio", "backend_options": {}}]])
        j.eq("lifespan", eng, s, f"{what}: leaving", results[6:], ["left"] if want == "fine" else [["raised", "ValueError"]])
        j.eq("lifespan", eng, s, f"{what}: messages to the application", toapp, [both])
        if not scopes:
            eng.report("lifespan", "starlette.testclient.TestClient", s, f"{what}: the application is not called: {results}")
            continue
        j.eq("lifespan", eng, s, f"{what}: scope", {k: scopes[0].get(k) for k in ("type",)}, {"type": "lifespan"})
        if "state" not in scopes[0]:
            eng.report("lifespan", "starlette.testclient.TestClient", s, f"{what}: no state in the scope")
        if state is not None:
            j.eq("lifespan", eng, s, f"{what}: state at two requests and two sessions", states, [state] * 4)


def run(ctx):
    ctx.rule("scope", "the scope of the application is a valid ASGI scope and says what was requested")
    ctx.rule("messages", "the application receives the body once, a disconnect only after its response, and violations of the protocol raise")
    ctx.rule("response", "the response has the status, headers and body the application sent, and its template")
    ctx.rule("fidelity", "one request is one call of the application on the chosen event loop")
    ctx.rule("forwarding", "the methods of the client hand all their arguments on")
    ctx.rule("session", "a websocket session exchanges exactly the messages of the two sides")
    ctx.rule("lifespan", "the with statement runs startup on entry, shutdown on exit, shares state and raises failures")
    ctx.client(CLIENT28)
    j = Judge(ctx)
    http(ctx, j)
    verbs(ctx, j)
    sockets(ctx, j)
    lifespans(ctx, j)
    ctx.need("play", 80)
    ctx.need("websocket", 12)
    ctx.need("lifespan", 3)
    ctx.need("application", 16)
    ctx.need("value", 600)
