"""Template responses, by constant propagation through client programs with a model of the template engine.

`jinja2.Environment` is a client class whose templates log the context they render.  Every calling convention of TemplateResponse (new and
deprecated, every split into positional and keyword arguments) is executed with every kind of context and with context processors; the
rendered context, the response and the caller's dictionary afterwards are compared with what is required.
"""
from itertools import product

from ..mw import *
from .c20 import Env20, value
from .c30 import call, lit
from .common import *

CLIENT22 = '''
import jinja2
from starlette.background import BackgroundTask
from starlette.requests import Request
from starlette.templating import Jinja2Templates

LOG = []
class Template:
    def __init__(self, name):
        self.name = name
    def render(self, *args, **kwargs):
        ctx = dict(*args, **kwargs)
        LOG.append((self.name, ctx))
        return "<" + self.name + ">"

class Environment:
    def __init__(self, **options):
        self.options = options
        self.globals = {}
    def get_template(self, name):
        if name == "missing.html":
            raise KeyError(name)
        return Template(name)

class FakeRequest:
    def __init__(self):
        self.calls = []
    def url_for(self, name, /, **params):
        self.calls.append((name, params))
        return "URL"

async def receive():
    return {"type": "http.request", "body": b"", "more_body": False}

def request(name):
    return Request({"type": "http", "who": name, "method": "GET", "path": "/", "headers": []})

def processors(n):
    seen = []
    def p1(request):
        seen.append(request.scope["who"])
        return {"a": "from p1", "user": "u-" + request.scope["who"]}
    def p2(request):
        seen.append(request.scope["who"])
        return {"a": "from p2", "b": "from p2"}
    def p3(request):
        seen.append(request.scope["who"])
        return {"request": Request({"type": "http", "who": "p3", "method": "GET", "path": "/", "headers": []}), "b": "from p3"}
    return [p1, p2, p3][:n], seen

def show(ctx):
    return {k: (v.scope["who"] if isinstance(v, Request) else v) for k, v in ctx.items()}

def convention(style, split, ctx, given, n):
    """one call; `given` says how many of the optional arguments are passed"""
    procs, seen = processors(n)
    env = Environment()
    t = Jinja2Templates(env=env, context_processors=procs) if n else Jinja2Templates(env=env)
    req = request("alice")
    task = BackgroundTask(len, "x")
    if style == "old" and ctx is not None:
        ctx["request"] = req
    if style == "own":
        ctx["request"] = request("own")
    names = ["request", "name", "context", "status_code", "headers", "media_type", "background"]
    values = [req, "index.html", ctx, 201, {"x-a": "1"}, "text/x", task]
    if style == "old":
        names, values = names[1:], values[1:]
    names, values = names[:given], values[:given]
    before = None if ctx is None else show(ctx)
    try:
        r = t.TemplateResponse(*values[:split], **{names[i]: values[i] for i in range(split, len(names))})
    except ValueError:
        return "ValueError"
    return [(n, show(c)) for n, c in LOG], before == (None if ctx is None else show(ctx)), seen, r.status_code, r.body, r.headers.get("content-type"), r.headers.get("x-a"), r.background is task, r.background is None, show(r.context), r.template.name

def twice(ctx, n):
    procs, seen = processors(n)
    t = Jinja2Templates(env=Environment(), context_processors=procs)
    t.TemplateResponse(request("alice"), "index.html", ctx)
    t.TemplateResponse(request("bob"), "index.html", ctx)
    t.TemplateResponse(request("carol"), "index.html")
    return [show(c) for _, c in LOG], seen

async def debug(extensions):
    t = Jinja2Templates(env=Environment())
    scope = {"type": "http", "method": "GET", "path": "/", "headers": []}
    if extensions is not None:
        scope["extensions"] = extensions
    r = t.TemplateResponse(Request(scope), "index.html", {"a": 1})
    sent = []
    async def send(m):
        sent.append(m)
    await r(scope, receive, send)
    return [m["type"] for m in sent], [(m["info"]["template"] is r.template, sorted([k for k in m["info"]["context"]])) for m in sent if "info" in m], sent[-1]["body"]

def url_for(own):
    env = Environment()
    mine = object()
    if own:
        env.globals["url_for"] = mine
    t = Jinja2Templates(env=env)
    f = t.env.globals["url_for"]
    if own:
        return f is mine
    a, b = FakeRequest(), FakeRequest()
    return f({"request": a}, "route", path="/x"), f({"request": b}, "other", name="n", context="c"), a.calls, b.calls, t.env is env

def make(kind):
    if kind == "neither":
        Jinja2Templates()
    elif kind == "both":
        Jinja2Templates("templates", env=Environment())
    elif kind == "directory":
        return Jinja2Templates("templates").env.options
    elif kind == "list":
        return Jinja2Templates(directory=["a", "b"]).env.options
    elif kind == "options":
        return Jinja2Templates("templates", autoescape=False, trim_blocks=True).env.options
    elif kind == "loader":
        return Jinja2Templates("templates", loader="mine").env.options

def missing():
    t = Jinja2Templates(env=Environment())
    try:
        t.TemplateResponse(request("alice"), "missing.html")
    except KeyError:
        return "KeyError"
'''
Q = "starlette.templating.Jinja2Templates"
QR = Q + ".TemplateResponse"


class Env22(Env20):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "jinja2.Environment":
            return list(eng.call(st, eng.force(st, eng.p.lookup_global(eng.p.client, "Environment")), args, kwargs, node))
        if q in ("jinja2.FileSystemLoader", "jinja2.loaders.FileSystemLoader"):
            return ok(st, T("loader", *[T("list", *st.heap[a].items) if a.tag == "ref" and st.heap[a].kind == "list" else a for a in args], *[v for _, v in sorted(kwargs.items())]))
        if q in ("jinja2.pass_context", "jinja2.contextfunction"):
            return ok(st, args[0])
        return super().on_ext(eng, st, q, args, kwargs, node)


def go(ctx, name, *args):
    eng = ctx.engine(Env22())
    eng.concrete = 40
    st = eng.start_state()
    return eng, [(s, k, value(s, v)) for k, s, v in call(ctx, eng, st, name, [lit(eng, st, a) for a in args])]


def conventions(ctx):
    full = {"new": 7, "own": 7, "old": 6}
    for style, n in product(full, (0, 1, 2)):
        for given in range(2 if style == "new" else 3 if style == "own" else 2, full[style] + 1):
            ctxs = [{}, {"a": "mine", "t": "x"}, None] if given >= (2 if style == "old" else 3) else [{}]
            for c, split in product(ctxs, range(given + 1)):
                if style == "own" and c is None or n == 1 and split not in (0, given):
                    continue
                what = f"{style} convention, {split} positional of {given} arguments, context {c}, {n} context processors"
                has_ctx = given >= (2 if style == "old" else 3)
                who = "own" if style == "own" else "alice"
                want = {**(c or {} if has_ctx else {}), "request": who}
                for p in [{"a": "from p1", "user": "u-alice"}, {"a": "from p2", "b": "from p2"}][:n]:
                    want.update(p)
                m = given - (2 if style == "old" else 3)       # optional arguments passed
                eng, outs = go(ctx, "convention", style, split, c, given, n)
                for s, k, v in outs:
                    ctx.oblige("call")
                    if style == "old" and c is None:
                        if (k, v) != ("ok", "ValueError"):
                            eng.report("conventions", QR, s, f"{what}: no ValueError for the missing request")
                        continue
                    if k != "ok" or v == "ValueError":
                        eng.report("conventions", QR, s, f"{what}: raises {v}")
                        continue
                    log, same, seen, status, body, ctype, xa, task, notask, rctx, tname = v
                    if log != [("index.html", want)] or tname != "index.html":
                        eng.report("context", QR, s, f"{what}: renders {log}, expected one rendering of index.html with {want}")
                    if rctx != want:
                        eng.report("context", QR, s, f"{what}: the response's context is {rctx}, expected {want}")
                    if not same:
                        eng.report("caller", QR, s, f"{what}: the caller's dictionary is changed")
                    if seen != [seen[0]] * n if seen else n:
                        eng.report("context", QR, s, f"{what}: the context processors run {len(seen)} times")
                    if body != b"<index.html>":
                        eng.report("response", QR, s, f"{what}: the body is {body}")
                    exp = (201 if m >= 1 else 200, "1" if m >= 2 else None, "text/x; charset=utf-8" if m >= 3 else "text/html; charset=utf-8", m >= 4, m < 4)
                    if (status, xa, ctype, task, notask) != exp:
                        eng.report("response", QR, s, f"{what}: status, x-a, content-type, background given, none: {(status, xa, ctype, task, notask)}, expected {exp}")


def run(ctx):
    ctx.rule("conventions", "every calling convention is accepted; a deprecated call without a request is a ValueError")
    ctx.rule("context", "the named template is rendered once with the caller's values, the request, and what the processors give, in order")
    ctx.rule("caller", "the caller's dictionary is not changed: responses for other requests made with it see their own request")
    ctx.rule("response", "the response has the rendered body and the given status, headers, media type and background task")
    ctx.rule("debug", "the debug message is sent first, exactly when the server offers it")
    ctx.rule("url_for", "url_for in a template builds the URL with the request of the rendering context")
    ctx.rule("environment", "a directory makes an autoescaping environment that loads from it; options and own environments are kept; exactly one is needed")
    ctx.client(CLIENT22)
    conventions(ctx)
    for c, n in product(({}, {"t": "x"}), (0, 2, 3)):
        want = []
        for who, base in (("alice", c), ("bob", c), ("carol", {})):
            want.append({**base, "request": who, **({"a": "from p2", "user": "u-" + who, "b": "from p2"} if n else {}), **({"request": "p3", "b": "from p3"} if n == 3 else {})})
        eng, outs = go(ctx, "twice", c, n)
        for s, k, v in outs:
            ctx.oblige("shared context")
            if k != "ok" or v[0] != want:
                eng.report("caller", QR, s, f"requests of alice, bob and carol with the shared context {c}, {n} processors: {v if k != 'ok' else v[0]}, expected {want}")
            elif v[1] != [w for w in ("alice", "bob", "carol") for _ in range(n)]:
                eng.report("context", QR, s, f"the processors are called with {v[1]}")
    for ext in (None, {}, {"http.response.debug": {}}, {"http.response.push": {}}, {"http.response.push": {}, "http.response.debug": {"x": 1}}):
        eng, outs = go(ctx, "debug", ext)
        d = bool(ext and "http.response.debug" in ext)
        want = (["http.response.debug"] * d + ["http.response.start", "http.response.body"], [(True, ["a", "request"])] * d, b"<index.html>")
        for s, k, v in outs:
            ctx.oblige("debug")
            if k != "ok" or v != want:
                eng.report("debug", "starlette.templating._TemplateResponse", s, f"extensions {ext}: {v}, expected {want}")
    eng, outs = go(ctx, "url_for", False)
    want = ("URL", "URL", [("route", {"path": "/x"})], [("other", {"name": "n", "context": "c"})], True)
    for s, k, v in outs:
        ctx.oblige("url_for")
        if k != "ok" or v != want:
            eng.report("url_for", Q, s, f"url_for in templates: {v}, expected {want}")
    eng, outs = go(ctx, "url_for", True)
    for s, k, v in outs:
        ctx.oblige("url_for")
        if (k, v) != ("ok", True):
            eng.report("url_for", Q, s, "the environment's own url_for is replaced")
    for kind in ("neither", "both"):
        eng, outs = go(ctx, "make", kind)
        for s, k, v in outs:
            ctx.oblige("environment")
            if k != "raise" or "AssertionError" not in str(v):
                eng.report("environment", Q, s, f"{kind} of directory and env: {k} {v}")
    for kind, want in (("directory", {"loader": "'templates'", "autoescape": True}), ("list", {"loader": "'a', 'b'", "autoescape": True}),
                       ("options", {"loader": "'templates'", "autoescape": False, "trim_blocks": True}), ("loader", {"loader": "mine", "autoescape": True})):
        eng, outs = go(ctx, "make", kind)
        for s, k, v in outs:
            ctx.oblige("environment")
            good = k == "ok" and set(v) == set(want) and all(v[x] == want[x] for x in want if x != "loader") and want["loader"] in str(v["loader"])
            if not good:
                eng.report("environment", Q, s, f"{kind}: the environment is made with {v}, expected {want}")
    eng, outs = go(ctx, "missing")
    for s, k, v in outs:
        ctx.oblige("environment")
        if (k, v) != ("ok", "KeyError"):
            eng.report("response", QR, s, f"a template that cannot be loaded: {k} {v}")
    ctx.need("call", 100)
    ctx.need("shared context", 4)
    ctx.need("debug", 5)
    ctx.need("environment", 6)
