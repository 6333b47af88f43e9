"""The WSGI bridge, by constant propagation through client WSGI applications.

The bridge runs with models of the worker thread, the calls back into the loop, the in-memory channel and the task group (tasks run after
the parent: the channel is unbounded, so every schedule gives the same messages).  The environ each application gets and the messages
the server gets are compared with those PEP 3333 and ASGI prescribe for the scope, the body and the application's behaviour.
"""
from itertools import product

from ..mw import *
from .c20 import Env20, value
from .c23 import Watch
from .c30 import call, lit
from .common import *

CLIENT42 = '''
import anyio
from starlette.middleware.wsgi import WSGIMiddleware

class Boom(Exception):
    pass

class Empty(Exception):
    pass

class Channel:
    def __init__(self):
        self.items = []
        self.send_closed = False
        self.recv_closed = False

class SendStream:
    def __init__(self, chan):
        self.chan = chan
    async def send(self, item):
        if self.chan.send_closed:
            raise anyio.ClosedResourceError
        if self.chan.recv_closed:
            raise anyio.BrokenResourceError
        self.chan.items.append(item)
    def send_nowait(self, item):
        if self.chan.send_closed:
            raise anyio.ClosedResourceError
        if self.chan.recv_closed:
            raise anyio.BrokenResourceError
        self.chan.items.append(item)
    def close(self):
        self.chan.send_closed = True
    async def aclose(self):
        self.chan.send_closed = True
    def __enter__(self):
        return self
    def __exit__(self, *exc):
        self.chan.send_closed = True
    async def __aenter__(self):
        return self
    async def __aexit__(self, *exc):
        self.chan.send_closed = True

class ReceiveStream:
    def __init__(self, chan):
        self.chan = chan
    async def receive(self):
        if self.chan.recv_closed:
            raise anyio.ClosedResourceError
        if self.chan.items:
            return self.chan.items.pop(0)
        if self.chan.send_closed:
            raise anyio.EndOfStream
        raise Empty()
    def __aiter__(self):
        return self
    async def __anext__(self):
        try:
            return await self.receive()
        except anyio.EndOfStream:
            raise StopAsyncIteration
    def close(self):
        self.chan.recv_closed = True
    async def aclose(self):
        self.chan.recv_closed = True
    def __enter__(self):
        return self
    def __exit__(self, *exc):
        self.chan.recv_closed = True
    async def __aenter__(self):
        return self
    async def __aexit__(self, *exc):
        self.chan.recv_closed = True

def make_streams():
    chan = Channel()
    return SendStream(chan), ReceiveStream(chan)

def application(kind, status, headers, chunks):
    def plain(environ, start_response):
        start_response(status, headers)
        return chunks
    def lazy(environ, start_response):
        start_response(status, headers)
        for c in chunks:
            yield c
    def refuse(environ, start_response):
        raise Boom("refused")
    def fail_at_once(environ, start_response):
        start_response(status, headers)
        raise Boom("at once")
    def fail_late(environ, start_response):
        start_response(status, headers)
        for c in chunks:
            yield c
        raise Boom("late")
    def report(environ, start_response):
        exc = Boom("reported")
        start_response(status, headers, (Boom, exc, None))
        return chunks
    def replaced(environ, start_response):
        start_response(status, headers)
        exc = Boom("reported")
        start_response("500 Late", [], (Boom, exc, None))
        return chunks
    return {"plain": plain, "lazy": lazy, "refuse": refuse, "fail at once": fail_at_once, "fail late": fail_late, "report": report, "replaced": replaced}[kind]

async def run(kind, status, headers, chunks, scope, parts):
    seen = []
    inner = application(kind, status, headers, chunks)
    def app(environ, start_response):
        seen.append((IN_THREAD(), environ, READ(environ["wsgi.input"])))
        return inner(environ, start_response)
    sent = []
    async def send(message):
        sent.append((message, IN_THREAD()))
    todo = list(parts)
    async def receive():
        return todo.pop(0)
    try:
        await WSGIMiddleware(app)(scope, receive, send)
    except Boom as exc:
        return seen, sent, exc.args[0]
    return seen, sent, "done"
'''
Q = "starlette.middleware.wsgi.WSGIMiddleware"
QE = "starlette.middleware.wsgi.build_environ"


class Env42(Watch, Env20):
    def client_fn(self, eng, st, name):
        return eng.force(st, eng.p.lookup_global(eng.p.client, name))

    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "anyio.create_memory_object_stream":
            return list(eng.run_call(st, self.client_fn(eng, st, "make_streams"), []))
        if q in ("anyio.from_thread.run", "anyio.from_thread.run_sync"):
            if not st.mon.get("depth"):
                return [("raise", st, eng.new_inst(st, node, Ext("builtins.RuntimeError")))]
            d = st.mon["depth"]
            st.mon["depth"] = 0
            outs = eng.call(st, args[0], list(args[1:]), {}, node)
            if q.endswith("run"):
                outs = eng.bind(outs, lambda s, r: eng.await_(s, r, node))
            for _, s, _v in outs:
                s.mon["depth"] = d
            return outs
        if q == "io.BytesIO":
            return ok(st, T("bytesio", *(args or [C(b"")])))
        return super().on_ext(eng, st, q, args, kwargs, node)

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "READ":
            return ok(st, args[0].a[1] if is_t(args[0], "bytesio") else NONE)
        return super().on_call(eng, st, name, args, kwargs, node)

    def start_soon(self, eng, st, tg, args, kwargs, node):
        st.mon["later"] = st.mon.get("later", ()) + ((tg, args[0], tuple(args[1:])),)
        return ok(st, NONE)

    def tg_exit(self, eng, st, cm, k, v, node):
        mine = [x for x in st.mon.get("later", ()) if x[0] is cm]
        st.mon["later"] = tuple(x for x in st.mon.get("later", ()) if x[0] is not cm)
        cur = [(k, st, v)]
        for _, fn, rest in mine:
            nx = []
            for k1, s, v1 in cur:
                if k1 == "raise":
                    nx.append((k1, s, v1))       # the group is cancelled
                    continue
                for k2, s2, v2 in eng.bind(eng.call(s, fn, list(rest), {}, node), lambda s, r: eng.await_(s, r, node)):
                    nx.append((k1, s2, v1) if k2 == "ok" else (k2, s2, v2))
            cur = nx
        return [o for k1, s, v1 in cur for o in super(Env42, self).tg_exit(eng, s, cm, k1, v1, node)]


SCOPES = {
    "plain": ({}, {}),
    "root": ({"root_path": "/static", "path": "/static/a"}, {"SCRIPT_NAME": "/static", "PATH_INFO": "/a"}),
    "whole root": ({"root_path": "/static", "path": "/static"}, {"SCRIPT_NAME": "/static", "PATH_INFO": ""}),
    "root not in path": ({"root_path": "/app", "path": "/a"}, {"SCRIPT_NAME": "/app", "PATH_INFO": "/a"}),
    "unicode": ({"root_path": "/é", "path": "/é/☃"}, {"SCRIPT_NAME": "/é".encode().decode("latin-1"), "PATH_INFO": "/☃".encode().decode("latin-1")}),
    "query": ({"query_string": b"a=1&b=%20"}, {"QUERY_STRING": "a=1&b=%20"}),
    "method": ({"method": "POST", "http_version": "2", "scheme": "https"}, {"REQUEST_METHOD": "POST", "SERVER_PROTOCOL": "HTTP/2", "wsgi.url_scheme": "https"}),
    "no server": ({"server": None}, {"SERVER_NAME": "localhost", "SERVER_PORT": "80"}),
    "server": ({"server": ("h.example", 8443)}, {"SERVER_NAME": "h.example", "SERVER_PORT": "8443"}),
    "client": ({"client": ("10.0.0.1", 5)}, {"REMOTE_ADDR": "10.0.0.1"}),
    "no client": ({"client": None}, {}),
    "headers": ({"headers": [(b"content-type", b"a/b"), (b"content-length", b"3"), (b"x-a-b", b"1"), (b"cookie", b"a=\xe9")]},
                {"CONTENT_TYPE": "a/b", "CONTENT_LENGTH": "3", "HTTP_X_A_B": "1", "HTTP_COOKIE": "a=é"}),
    "repeated": ({"headers": [(b"x-a", b"1"), (b"x-b", b"2"), (b"x-a", b"3"), (b"x-a", b"4")]}, {"HTTP_X_A": "1,3,4", "HTTP_X_B": "2"}),
    "prefix": ({"headers": [(b"content-type-x", b"1"), (b"content-encoding", b"gzip")]}, {"HTTP_CONTENT_TYPE_X": "1", "HTTP_CONTENT_ENCODING": "gzip"}),
}
BASE = {"REQUEST_METHOD": "GET", "SCRIPT_NAME": "", "PATH_INFO": "/", "QUERY_STRING": "", "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.url_scheme": "http",
        "SERVER_NAME": "localhost", "SERVER_PORT": "80", "wsgi.version": (1, 0), "wsgi.multithread": True, "wsgi.run_once": False}
M = lambda b=None, more=None: {"type": "http.request", **({"body": b} if b is not None else {}), **({"more_body": more} if more is not None else {})}
BODIES = [([M(b"", False)], b""), ([M(b"abc", False)], b"abc"), ([M(b"abc")], b"abc"), ([M()], b""), ([M(b"a", True), M(b"", True), M(b"b", True), M(b"c", False)], b"abc"), ([M(b"a", True), M(None, True), M(None, False)], b"a")]
RESPONSES = [
    ("200 OK", [], [b"x"]), ("404 Not Found", [("Content-Type", "text/plain"), ("X-A", " 1 ")], [b"a", b"b", b"c"]), ("204 No Content", [("X-A", "1"), ("x-a", "2")], []),
    ("418 I'm a teapot", [("Set-Cookie", "a=1"), ("Set-Cookie", "b=2")], [b"", b"a", b""]),
]


def run(ctx):
    ctx.rule("environ", "the application is called once, in a worker thread, with the environ of the scope and the complete body")
    ctx.rule("response", "the server gets one start message with the status and the headers (lower case names, in order), each chunk in order with more_body set, then one closing empty body")
    ctx.rule("errors", "what the application raises, or passes as exc_info, leaves the middleware; nothing is sent that the application did not give")
    ctx.client(CLIENT42)
    for name in SCOPES:
        go(ctx, f"{name} scope", SCOPES[name], BODIES[0], "plain", RESPONSES[0])
    for i, b in enumerate(BODIES):
        go(ctx, f"body {[m.get('body') for m in b[0]]}", SCOPES["plain"], b, "plain", RESPONSES[0])
    for kind, r in product(("plain", "lazy", "refuse", "fail at once", "fail late", "report", "replaced"), RESPONSES):
        go(ctx, f"{kind} application answering {r}", SCOPES["plain"], BODIES[0], kind, r)
    ctx.need("request", 40)


def go(ctx, what, scope, body, kind, response):
    env = Env42()
    env.ctx = ctx
    eng = ctx.engine(env)
    eng.concrete = 40
    st = eng.start_state()
    sc = {"type": "http", "method": "GET", "path": "/", "query_string": b"", "http_version": "1.1", "headers": [], **scope[0]}
    status, headers, chunks = response
    for k, s, v in call(ctx, eng, st, "run", [lit(eng, st, x) for x in (kind, status, headers, chunks, sc, body[0])]):
        ctx.oblige("request")
        if k != "ok":
            if kind in ("refuse", "fail at once", "fail late") and is_t(v, "exc") and "ExceptionGroup" in v.a[1]:
                continue
            eng.report("errors", Q, s, f"{what}: raises {value(s, v)}")
            continue
        seen, sent, end = value(s, v)
        want_end = {"refuse": "refused", "fail at once": "at once", "fail late": "late", "report": "reported", "replaced": "reported"}.get(kind, "done")
        if end != want_end:
            eng.report("errors", Q, s, f"{what}: ends {end}, expected {want_end}")
        if len(seen) != 1 or seen[0][0] is not True:
            eng.report("environ", Q, s, f"{what}: the application is called {len(seen)} times{'' if not seen else ', outside a worker thread'}")
            continue
        environ = {**BASE, **scope[1]}
        got = {k: str(x) if k == "SERVER_PORT" else x for k, x in seen[0][1].items()}
        for key, w in environ.items():
            if got.get(key) != w:
                eng.report("environ", QE, s, f"{what}: environ[{key!r}] is {got.get(key)!r}, expected {w!r}")
        extra = [x for x in got if x not in environ and (x.startswith("HTTP_") or x in ("REMOTE_ADDR", "CONTENT_TYPE", "CONTENT_LENGTH"))]
        if extra:
            eng.report("environ", QE, s, f"{what}: environ has {extra}")
        if seen[0][2] != body[1]:
            eng.report("environ", QE, s, f"{what}: wsgi.input holds {seen[0][2]}, expected {body[1]}")
        want = [("http.response.start", int(status[:3]), [(n.lower().encode(), x.strip().encode()) for n, x in headers])]
        want += [("http.response.body", c, True) for c in chunks] + [("http.response.body", b"", False)]
        msgs = [("http.response.start", m.get("status"), [tuple(h) for h in m.get("headers", [])]) if m.get("type") == "http.response.start" else (m.get("type"), m.get("body", b""), m.get("more_body", False)) for m, _ in sent]
        if kind in ("refuse", "fail at once", "fail late"):
            want = {"refuse": [], "fail at once": want[:1], "fail late": want[:-1]}[kind]
            if msgs != want[:len(msgs)]:
                eng.report("errors", Q, s, f"{what}: sends {msgs}, which is not the beginning of {want}")
        elif msgs != want:
            eng.report("response", Q, s, f"{what}: sends {msgs}, expected {want}")
        if any(t for _, t in sent):
            eng.report("response", Q, s, f"{what}: the server's send is called in a worker thread")
