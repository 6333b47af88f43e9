"""Where code runs, by constant propagation through client programs with a worker-thread model.

`anyio.to_thread.run_sync` runs its function "in a thread" when awaited; client functions, files and iterators ask whether they are
in one and log it.  Uploads on files that roll over to disk, synchronous iterators as response bodies, user functions of every kind in
every place, static files and file responses are driven; each log is compared with what is required.  In addition every call path that starts in a coroutine function and
stays inside the repository is followed for calls of blocking library functions.
"""
import ast
from itertools import product

from ..mw import *
from ..values import *
from .c13 import Env13
from .c20 import Env20, value
from .c30 import call, lit
from ..lib import is_exc
from .common import *

CLIENT23 = '''
import functools
from starlette.applications import Starlette
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.concurrency import iterate_in_threadpool, run_in_threadpool
from starlette.datastructures import UploadFile
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.middleware.wsgi import WSGIMiddleware
from starlette.responses import FileResponse, PlainTextResponse, Response, StreamingResponse
from starlette.routing import Route, Router
from starlette.staticfiles import StaticFiles

LOG = []
class Boom(Exception):
    pass

class Spooled:
    def __init__(self, limit, rolled, data):
        self._max_size = limit
        self._rolled = rolled
        self.data = data
        self.pos = len(data)
        self.closed = False

    def touch(self, op):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if self._rolled:
            LOG.append((op, IN_THREAD()))

    def write(self, x):
        self.touch("write")
        self.data = self.data[:self.pos] + x + self.data[self.pos + len(x):]
        self.pos = self.pos + len(x)
        if self._max_size and not self._rolled and self.pos > self._max_size:
            self._rolled = True
            LOG.append(("rollover", IN_THREAD()))
        return len(x)

    def read(self, size=-1):
        self.touch("read")
        x = self.data[self.pos:] if size < 0 else self.data[self.pos:self.pos + size]
        self.pos = self.pos + len(x)
        return x

    def seek(self, offset, whence=0):
        self.touch("seek")
        self.pos = offset
        return offset

    def tell(self):
        return self.pos

    def close(self):
        if not self.closed:
            self.touch("close")
        self.closed = True

class Plain:
    def __init__(self, data):
        self.f = Spooled(0, True, data)
    def write(self, x):
        return self.f.write(x)
    def read(self, size=-1):
        return self.f.read(size)
    def seek(self, offset, whence=0):
        return self.f.seek(offset)
    def tell(self):
        return self.f.tell()
    def close(self):
        return self.f.close()

async def upload(kind, data, limit, size, ops):
    file = Plain(data) if kind == "plain" else Spooled(limit, kind == "rolled", data)
    f = UploadFile(file, size=size, filename="a")
    got = []
    for op, arg in ops:
        if op == "write":
            got.append(await f.write(arg))
        elif op == "read":
            got.append(await f.read())
        elif op == "read n":
            got.append(await f.read(arg))
        elif op == "seek":
            got.append(await f.seek(arg))
        else:
            got.append(await f.close())
    inner = file.f if kind == "plain" else file
    return got, LOG, f.size, inner.data, inner.closed

class Items:
    def __init__(self, items, bad):
        self.items = items
        self.bad = bad
        self.n = 0
    def __iter__(self):
        return self
    def __next__(self):
        LOG.append(("next", IN_THREAD()))
        if self.n == self.bad:
            raise Boom()
        if self.n >= len(self.items):
            raise StopIteration
        self.n += 1
        return self.items[self.n - 1]

class AsyncItems:
    def __init__(self, items, bad):
        self.items = items
        self.bad = bad
        self.n = 0
    def __aiter__(self):
        return self
    async def __anext__(self):
        LOG.append(("next", IN_THREAD()))
        if self.n == self.bad:
            raise Boom()
        if self.n >= len(self.items):
            raise StopAsyncIteration
        self.n += 1
        return self.items[self.n - 1]

async def receive():
    return {"type": "http.request", "body": b"", "more_body": False}

async def iterate(how, items, bad):
    got = []
    try:
        if how == "iterate_in_threadpool":
            async for x in iterate_in_threadpool(Items(items, bad)):
                got.append(x)
        else:
            async def send(message):
                if message["type"] == "http.response.body" and message["body"]:
                    got.append(message["body"])
            content = Items(items, bad) if how == "sync body" else AsyncItems(items, bad)
            await StreamingResponse(content)({"type": "http", "asgi": {"spec_version": "2.4"}}, receive, send)
    except Boom:
        return got, LOG, "boom"
    return got, LOG, "done"

CURRENT = []
class Object:
    def method(self, *args, **kwargs):
        return CURRENT[0](*args, **kwargs)
    async def async_method(self, *args, **kwargs):
        return CURRENT[0](*args, **kwargs)
    @staticmethod
    def static(*args, **kwargs):
        return CURRENT[0](*args, **kwargs)
class Callable:
    def __call__(self, *args, **kwargs):
        return CURRENT[0](*args, **kwargs)
class AsyncCallable:
    async def __call__(self, *args, **kwargs):
        return CURRENT[0](*args, **kwargs)
class Verbs(HTTPEndpoint):
    def get(self, request):
        return CURRENT[0](request)
class AsyncVerbs(HTTPEndpoint):
    async def get(self, request):
        return CURRENT[0](request)

def functions(kind, answer):
    def body(*args, **kwargs):
        LOG.append((kind, IN_THREAD(), args, kwargs))
        return answer()
    CURRENT.append(body)
    def function(*args, **kwargs):
        return body(*args, **kwargs)
    async def coroutine(*args, **kwargs):
        return body(*args, **kwargs)
    return {
        "function": function, "coroutine": coroutine, "method": Object().method, "async method": Object().async_method, "static": Object.static,
        "partial": functools.partial(function), "async partial": functools.partial(coroutine), "partial of partial": functools.partial(functools.partial(coroutine)),
        "partial of object": functools.partial(AsyncCallable()), "object": Callable(), "async object": AsyncCallable(),
    }[kind]

async def place(where, kind):
    def answer():
        return PlainTextResponse("ok")
    def fail():
        raise Boom()
    f = functions(kind, answer)
    async def failing(scope, receive, send):
        raise Boom()
    async def refusing(scope, receive, send):
        raise HTTPException(418)
    if where == "endpoint":
        app = Router([Route("/", f)])
    elif where == "verb":
        app = Verbs if kind == "function" else AsyncVerbs
    elif where == "handler":
        app = ExceptionMiddleware(failing, handlers={Boom: f})
    elif where == "status":
        app = ExceptionMiddleware(refusing, handlers={418: f})
    elif where == "500":
        app = ServerErrorMiddleware(failing, handler=f)
    elif where == "task":
        app = Response(b"", background=BackgroundTask(f, "a", b="c"))
    elif where == "tasks":
        tasks = BackgroundTasks()
        tasks.add_task(f, "a", b="c")
        tasks.add_task(f, "d")
        app = Response(b"", background=tasks)
    elif where == "pool":
        r = await run_in_threadpool(f, "a", b="c")
        return LOG, "answered" if isinstance(r, PlainTextResponse) else "?"
    sent = []
    async def send(message):
        sent.append(message["type"])
    try:
        await app({"type": "http", "method": "GET", "path": "/", "headers": [], "query_string": b"", "auth": None}, receive, send)
    except Boom:
        return LOG, "boom " + str(len(sent))
    return LOG, "sent " + str(len(sent))

async def wsgi():
    def app(environ, start_response):
        LOG.append(("wsgi", IN_THREAD()))
        start_response("200 OK", [])
        return Items([b"x"], None)
    async def send(message):
        pass
    await WSGIMiddleware(app)({"type": "http", "method": "GET", "path": "/", "headers": [], "query_string": b"", "http_version": "1.1", "scheme": "http"}, receive, send)
    return LOG

def static(directory, html):
    return StaticFiles(directory=directory, html=html)

async def drive(app, scope):
    async def send(message):
        pass
    await app(scope, receive, send)

async def fileresponse(path, scope):
    await drive(FileResponse(path), scope)
'''
SYNC = ("function", "method", "static", "partial", "object")
ASYNC = ("coroutine", "async method", "async partial", "partial of partial", "partial of object", "async object")
Q = {"upload": "starlette.datastructures.UploadFile", "iterate": "starlette.concurrency.iterate_in_threadpool", "place": "starlette.concurrency.run_in_threadpool",
     "files": "starlette.staticfiles.StaticFiles", "wsgi": "starlette.middleware.wsgi.WSGIResponder"}
BLOCKING = {"builtins.open", "builtins.input", "io.open", "time.sleep", *(f"os.{x}" for x in
            "stat lstat open listdir scandir access readlink walk remove unlink mkdir makedirs rename replace rmdir read write fsync system popen".split()),
            *(f"os.path.{x}" for x in "exists lexists isfile isdir islink ismount getsize getmtime getatime getctime realpath samefile".split()),
            "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.mkstemp", "tempfile.mkdtemp"}
BLOCKING_MODULES = ("subprocess.", "socket.", "urllib.request.", "shutil.", "http.client.")
PATHLIB = set("stat lstat exists is_file is_dir is_symlink open read_bytes read_text write_bytes write_text resolve iterdir glob touch unlink mkdir".split())


def blocking(q):
    return q in BLOCKING or q.startswith(BLOCKING_MODULES)


class Watch:
    """runs the functions given to a thread in a thread, and knows whether code is in one"""

    def thread_call(self, eng, st, args, kwargs, node):
        kw = {k: v for k, v in kwargs.items() if k not in ("abandon_on_cancel", "cancellable", "limiter")}
        return ok(st, aw("thread", args[0], Tup(args[1:]), Tup([Tup([C(k), v]) for k, v in sorted(kw.items())])))

    def aw_thread(self, eng, st, args, node):
        st.mon["depth"] = st.mon.get("depth", 0) + 1
        res = []
        for k, s, v in eng.call(st, args[0], list(args[1].a), {cval(x.a[0]): x.a[1] for x in args[2].a}, node):
            s.mon["depth"] -= 1
            if k == "raise" and is_exc(eng, s, v, "builtins.StopIteration"):
                v = eng.new_inst(s, node, Ext("builtins.RuntimeError"))     # cannot cross the boundary
            res.append((k, s, v))
        return res

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "IN_THREAD":
            return ok(st, B(st.mon.get("depth", 0) > 0))
        return super().on_call(eng, st, name, args, kwargs, node)

    def on_ext(self, eng, st, q, args, kwargs, node):
        if blocking(q) and st.mon.get("driven"):
            self.ctx.oblige("file call")
            if not st.mon.get("depth"):
                eng.report("files", Q["files"], st, f"{q} is called on the event loop", node)
        return super().on_ext(eng, st, q, args, kwargs, node)

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        if name in PATHLIB and is_t(recv, "call") and recv.a[1].startswith("pathlib.") and st.mon.get("driven") and not st.mon.get("depth"):
            eng.report("files", Q["files"], st, f"Path.{name} is called on the event loop", node)
        return super().on_method(eng, st, recv, name, args, kwargs, node)


class Env23(Watch, Env20):
    pass


class Files(Watch, Env13):
    pass


def engine(ctx, cls=Env23):
    env = cls()
    env.ctx = ctx
    eng = ctx.engine(env)
    eng.concrete = 60
    return eng, eng.start_state()


OPS = [("write", b"ab"), ("write", b"abcdef"), ("write", b""), ("read", None), ("read n", 2), ("seek", 0), ("close", None)]


def uploads(ctx):
    n = 2 if ctx.tier == "quick" else 3
    for kind, data, limit in (("spooled", b"", 5), ("spooled", b"xyz", 5), ("spooled", b"xyz", 0), ("rolled", b"0123456", 5), ("plain", b"xyz", 0)):
        for size in (None, 3):
            for ops in [o for i in range(1, n + 1) for o in product(OPS, repeat=i)] + [(OPS[0],) * 4, (OPS[0], OPS[5], OPS[1], OPS[5], OPS[4])]:
                if any(o[0] == "close" for o in ops[:-1]) or size is None and len(ops) > 2:
                    continue
                eng, st = engine(ctx)
                what = f"{kind} file of {data} (limit {limit}): {[o if o[1] is not None else o[0] for o in ops]}"
                # reference
                buf, pos, got, sz, closed = data, len(data), [], size, False
                for op, a in ops:
                    r = None
                    if op == "write":
                        buf, pos, sz = buf[:pos] + a + buf[pos + len(a):], pos + len(a), None if sz is None else sz + len(a)
                    elif op.startswith("read"):
                        r = buf[pos:] if a is None else buf[pos:pos + a]
                        pos += len(r)
                    elif op == "seek":
                        pos = a
                    else:
                        closed = True
                    got.append(r)
                for k, s, v in call(ctx, eng, st, "upload", [lit(eng, st, x) for x in (kind, data, limit, size, [tuple(o) for o in ops])]):
                    ctx.oblige("upload")
                    if k != "ok":
                        eng.report("upload", Q["upload"], s, f"{what}: raises {value(s, v)}")
                        continue
                    g, log, sz2, buf2, closed2 = value(s, v)
                    for op, inside in log:
                        if inside is not True:
                            eng.report("upload", Q["upload"], s, f"{what}: {op} touches the disk on the event loop")
                    if g != got or sz2 != sz or buf2 != buf or closed2 is not closed:
                        eng.report("upload", Q["upload"], s, f"{what}: gives {g}, size {sz2}, contents {buf2}, closed {closed2}; expected {got}, {sz}, {buf}, {closed}")


def iterators(ctx):
    for how in ("iterate_in_threadpool", "sync body", "async body"):
        for items in ([], [b"a"], [b"a", b"b", b"c"]):
            for bad in (None, 0, 1, 3):
                if bad is not None and bad > len(items):
                    continue
                eng, st = engine(ctx)
                n = len(items) if bad is None else bad
                want = (items[:n], [("next", how != "async body")] * (n + 1), "done" if bad is None else "boom")
                what = f"{how} of {items}" + (f" failing at {bad}" if bad is not None else "")
                for k, s, v in call(ctx, eng, st, "iterate", [lit(eng, st, x) for x in (how, items, bad)]):
                    ctx.oblige("iterator")
                    got = value(s, v) if k == "ok" else (k, value(s, v))
                    if got != want:
                        eng.report("iterator", Q["iterate"], s, f"{what}: {got}, expected {want}")


def places(ctx):
    for where, kinds, args in (
        ("endpoint", ("function", "coroutine", "method", "async method", "static", "partial", "async partial", "partial of partial"), 1),
        ("verb", ("function", "coroutine"), 1),
        ("handler", SYNC + ASYNC, 2), ("status", SYNC + ASYNC, 2), ("500", SYNC + ASYNC, 2), ("task", SYNC + ASYNC, 0), ("tasks", SYNC + ASYNC, 0), ("pool", SYNC, 0),
    ):
        for kind in kinds:
            eng, st = engine(ctx)
            for k, s, v in call(ctx, eng, st, "place", [C(where), C(kind)]):
                ctx.oblige("function")
                what = f"{kind} as {where}"
                if k != "ok":
                    eng.report("function", Q["place"], s, f"{what}: raises {value(s, v)}")
                    continue
                log, end = value(s, v)
                if [(x[0], x[1]) for x in log] != [(kind, kind in SYNC)] * (2 if where == "tasks" else 1):
                    eng.report("function", Q["place"], s, f"{what}: runs {'; '.join('in a thread' if x[1] else 'on the event loop' for x in log) or 'never'}")
                    continue
                if args:
                    good = len(log[0][2]) == args and not log[0][3]
                else:
                    good = [x[2:] for x in log] == [(("a",), {"b": "c"})] + ([(("d",), {})] if where == "tasks" else [])
                if not good:
                    eng.report("function", Q["place"], s, f"{what}: called with {[x[2:] for x in log]}")
                if end != ("boom 2" if where == "500" else "answered" if where == "pool" else "sent 2"):
                    eng.report("function", Q["place"], s, f"{what}: ends {end}")
    eng, st = engine(ctx)
    for k, s, v in call(ctx, eng, st, "wsgi", []):
        ctx.oblige("function")
        log = value(s, v) if k == "ok" else None
        if k != "ok" or len(log) < 3 or not all(x[1] is True for x in log):
            eng.report("function", Q["wsgi"], s, f"a WSGI application: {log if k == 'ok' else value(s, v)}")


def files(ctx):
    for html in (False, True):
        eng, st = engine(ctx, Files)
        d = S("directory")
        st.facts[d] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]), tr=True)
        for k, s, app in call(ctx, eng, st, "static", [d, B(html)]):
            if k != "ok":
                continue
            for method, hs in (("GET", []), ("HEAD", []), ("GET", [(b"if-none-match", b'"x"')])):
                s1 = s.fork()
                s1.mon["driven"] = True
                s1.facts[S("path")] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
                scope = lit(eng, s1, {"type": "http", "method": method, "headers": hs, "query_string": b"", "scheme": "http", "server": ["h", 80], "root_path": ""})
                s1.heap[scope] = s1.heap[scope].put(C("path"), S("path"))
                for _ in call(ctx, eng, s1, "drive", [app, scope]):
                    ctx.oblige("static file request")
    for method, rng in (("GET", None), ("HEAD", None), ("GET", b"bytes=0-3"), ("GET", b"bytes=0-1,3-4")):
        eng, st = engine(ctx, Files)
        st.mon["driven"] = True
        p = S("file path")
        st.facts[p] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]), tr=True)
        scope = lit(eng, st, {"type": "http", "method": method, "headers": [(b"range", rng)] if rng else []})
        for _ in call(ctx, eng, st, "fileresponse", [p, scope]):
            ctx.oblige("file response")


def paths(ctx):
    """call paths from coroutine functions to blocking library functions, inside the repository"""
    p = ctx.p
    done = {}

    def calls(fn):
        todo = list(fn.body if isinstance(fn.body, list) else [fn.body])
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, ast.Call):
                yield n
            todo.extend(ast.iter_child_nodes(n))

    def resolve(info, f):
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and info.cls is not None:
            r = info.cls.find(f.attr)
            return r[2] if r and r[1] in ("fn", "static", "class") else None
        parts = []
        while isinstance(f, ast.Attribute):
            parts.append(f.attr)
            f = f.value
        if not isinstance(f, ast.Name):
            return None
        v = p.lookup_global(info.module, f.id)
        if v is None:
            return "builtins." + f.id if not parts else None
        if v.tag == "fn" and not parts:
            return v.a[0]
        if v.tag in ("ext", "mod") and isinstance(v.a[0], str):
            return ".".join([v.a[0]] + parts[::-1])
        return None

    def walk(info, path):
        for n in calls(info.node):
            t = resolve(info, n.func)
            if isinstance(t, str):
                if blocking(t):
                    ctx.report("paths", path[0], f"{t} is called on the event loop: {' -> '.join(path)}", at=p.loc(n))
            elif t is not None and not isinstance(t.node, ast.AsyncFunctionDef) and t.qual not in path:
                ctx.oblige("call followed")
                walk(t, path + [t.qual])
    for info in list(p.fn_by_node.values()):
        if isinstance(info.node, ast.AsyncFunctionDef) and not info.module.name.endswith(("testclient", "client")):
            ctx.oblige("coroutine function")
            walk(info, [info.qual])


def run(ctx):
    ctx.rule("upload", "operations of an UploadFile give what the file gives and touch the disk (a rolled over or ordinary file, or the write that rolls over) in a worker thread only")
    ctx.rule("iterator", "a synchronous iterable is advanced in worker threads, one item at a time, in order, to its end; an asynchronous one on the event loop")
    ctx.rule("function", "a plain function given as endpoint, method, exception handler, background task or WSGI application runs in a worker thread, a coroutine function on the event loop, once, with its arguments")
    ctx.rule("files", "static file and file responses look at the file system in worker threads")
    ctx.rule("paths", "no call path from a coroutine function reaches a blocking library function")
    ctx.client(CLIENT23)
    uploads(ctx)
    iterators(ctx)
    places(ctx)
    files(ctx)
    paths(ctx)
    ctx.need("upload", 100)
    ctx.need("iterator", 20)
    ctx.need("function", 60)
    ctx.need("file call", 6)
    ctx.need("coroutine function", 60)
    ctx.need("call followed", 30)
