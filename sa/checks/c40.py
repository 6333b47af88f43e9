"""The generated schema against the route tables it was generated from, by constant propagation through client programs.

Representative route tables (functions, methods, endpoint classes, mounts, hosts, nested and hidden routes, docstrings with and without
a schema) and base schemas are interpreted; the schema must list exactly the documented operations, and nothing may be left in the base.
"""
from ..mw import *
from .c30 import call, lit
from .common import *

CLIENT40 = '''
from starlette.schemas import SchemaGenerator, OpenAPIResponse
from starlette.routing import Route, Mount, Host, WebSocketRoute, Router
from starlette.endpoints import HTTPEndpoint
from starlette.applications import Starlette

def plain(request):
    "doc plain"

async def later(request):
    """
    Some text.
    ---
    doc later
    """

def text_only(request):
    "text only"

def bare(request):
    pass

def empty(request):
    """
    text
    ---
    """

class Methods:
    def get(self, request):
        "doc bound"

class Item(HTTPEndpoint):
    def get(self, request):
        "doc item get"

    async def delete(self, request):
        """
        text --- text
        ---
        doc item delete
        """

    def patch(self, request):
        pass

    def head(self, request):
        "doc item head"

    def helper(self):
        "doc helper"

class Every(HTTPEndpoint):
    def get(self, request):
        "doc 1"
    def post(self, request):
        "doc 2"
    async def put(self, request):
        "doc 3"
    def patch(self, request):
        "doc 4"
    def delete(self, request):
        "doc 5"
    def options(self, request):
        "doc 6"
    def head(self, request):
        "doc 7"

class Socket:
    async def __call__(self, scope, receive, send):
        "doc socket"

def tables(name):
    if name == "flat":
        return [
            Route("/", plain),
            Route("/two", later, methods=["POST", "PUT"]),
            Route("/text", text_only),
            Route("/bare", bare),
            Route("/empty", empty),
            Route("/hidden", plain, include_in_schema=False),
            Route("/head", plain, methods=["HEAD", "GET"]),
        ]
    if name == "params":
        return [Route("/a/{x}/b/{y:int}/{z:path}", plain), Route("/{x:uuid}", later, methods=["DELETE"])]
    if name == "classes":
        return [Route("/item/{id:int}", Item), Route("/bound", Methods().get), Route("/hidden", Item, include_in_schema=False), Route("/every", Every)]
    if name == "same path":
        return [Route("/x", plain, methods=["GET"]), Route("/x", later, methods=["POST"]), Route("/x", bare, methods=["PUT"])]
    if name == "mounts":
        return [
            Mount("/api/{v:int}", routes=[Route("/one", plain), Mount("/deep", routes=[Route("/{id:int}", later, methods=["POST"]), Route("/item", Item)])]),
            Mount("/app", app=Router([Route("/r", plain)])),
            Mount("/opaque", app=Socket()),
            Route("/after", plain),
        ]
    if name == "hosts":
        return [
            Host("{sub}.example.org", app=Router([Route("/h", plain), Mount("/m", routes=[Route("/k", later)])])),
            Mount("/p", routes=[Host("q", app=Router([Route("/z", plain)]))]),
            WebSocketRoute("/ws", Socket()),
            Route("/after", plain),
        ]
    if name == "trailing":
        return [Mount("/t/", routes=[Route("/", plain), Route("/a/", later)]), Mount("", routes=[Route("/root", plain)])]
    return []

def once(base, name):
    g = SchemaGenerator(base)
    return g.get_schema(routes=tables(name))

def again(base, first, second):
    g = SchemaGenerator(base)
    g.get_schema(routes=tables(first))
    return g.get_schema(routes=tables(second))

def two(base, first, second):
    g = SchemaGenerator({"leak": "base", "paths": {"/leak": {"get": {"doc": "leak"}}}})
    g.get_schema(routes=tables(first))
    return SchemaGenerator(base).get_schema(routes=tables(second))

def response(base, name):
    g = SchemaGenerator(base)
    request = Req(Starlette(routes=tables(name)))
    return g.OpenAPIResponse(request)

class Req:
    def __init__(self, app):
        self.app = app
'''
Q = "starlette.schemas.SchemaGenerator.get_schema"
P, L = "plain", "later"
EXPECT = {
    "none": {},
    "flat": {"/": {"get": P}, "/two": {"post": L, "put": L}, "/head": {"get": P}},
    "params": {"/a/{x}/b/{y}/{z}": {"get": P}, "/{x}": {"delete": L}},
    "classes": {"/item/{id}": {"get": "item get", "delete": "item delete"}, "/bound": {"get": "bound"}, "/every": {m: str(i) for i, m in enumerate(("get", "post", "put", "patch", "delete", "options"), 1)}},
    "same path": {"/x": {"get": P, "post": L}},
    "mounts": {"/api/{v}/one": {"get": P}, "/api/{v}/deep/{id}": {"post": L}, "/api/{v}/deep/item": {"get": "item get", "delete": "item delete"}, "/app/r": {"get": P}, "/after": {"get": P}},
    "hosts": {"/h": {"get": P}, "/m/k": {"get": L}, "/p/z": {"get": P}, "/after": {"get": P}},
    "trailing": {"/t/": {"get": P}, "/t/a/": {"get": L}, "/root": {"get": P}},
}
BASES = {
    "empty": {},
    "info": {"openapi": "3.0.0", "info": {"title": "T"}},
    "paths": {"openapi": "3.0.0", "paths": {"/x": {"get": {"doc": "base get"}, "trace": {"doc": "base trace"}}, "/other": {"get": {"doc": "base other"}}}, "components": {"a": "b"}},
}


class Env40(MwEnv):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q in ("yaml.safe_load", "yaml.load"):
            doc = eng.known(st, args[0])
            if not is_c(doc) or not isinstance(cval(doc), str):
                return ok(st, T("call", q, *args))
            s = cval(doc).strip()
            if s.startswith("doc "):
                return ok(st, eng.new_dict(st, node, {C("doc"): C(s[4:])}, None))
            return ok(st, C(s or None))
        if q in ("yaml.dump", "yaml.safe_dump"):
            self.ev(st, "dump", args[0], None, None)
            return ok(st, C("the schema"))
        return super().on_ext(eng, st, q, args, kwargs, node)


def run(ctx):
    ctx.rule("paths", "the schema has exactly one entry for every path (without convertors) and method (HEAD excluded) of a documented, not hidden route, mounted and host routes included, with what the handler's docstring says after its last ---")
    ctx.rule("base", "the rest of the base schema is there unchanged, the base's own paths are merged with those of the routes")
    ctx.rule("apart", "generating a schema changes neither the base schema nor what later calls generate")
    ctx.rule("response", "OpenAPIResponse renders the schema of the application's routes with the OpenAPI media type")
    ctx.client(CLIENT40)
    for b in BASES:
        for name in EXPECT:
            one(ctx, "once", b, [name])
            for first in EXPECT:
                if first != name:
                    one(ctx, "again", b, [first, name])
            one(ctx, "two", b, ["same path" if name == "none" else "none", name])
            response(ctx, b, name)
    ctx.need("paths", 100)
    ctx.need("response", 20)
    ctx.assume("yaml.safe_load gives a dictionary for a schema docstring, a string for prose and None for nothing")


def plain(s, v):
    """python value of an abstract container, unknown parts as text"""
    if v.tag == "ref":
        o = s.heap[v]
        if o.kind == "dict" and o.base is None:
            return {plain(s, k): plain(s, x) for k, x in o.d.items() if x is not ABSENT}
        if o.kind == "list":
            return [plain(s, x) for x in o.items]
    return cval(v) if is_c(v) else f"<{show(v)}>"


def expected(base, name):
    b = BASES[base]
    paths = {p: dict(ops) for p, ops in b.get("paths", {}).items()}
    for p, ops in EXPECT[name].items():
        for m, d in ops.items():
            paths.setdefault(p, {})[m] = {"doc": d}
    return {**b, "paths": paths}


def diff(got, want, at=""):
    if isinstance(got, dict) and isinstance(want, dict):
        for k in want:
            if k not in got:
                return f"{at}[{k!r}] is missing"
            d = diff(got[k], want[k], f"{at}[{k!r}]")
            if d:
                return d
        for k in got:
            if k not in want:
                return f"{at}[{k!r}] should not be there"
        return None
    return None if got == want else f"{at} is {got!r}, expected {want!r}"


def one(ctx, fn, base, names):
    eng = ctx.engine(Env40())
    st = eng.start_state()
    b = lit(eng, st, BASES[base])
    what = f"base {base}, routes {' then '.join(names)}"
    for k, s, v in call(ctx, eng, st, fn, [b, *[C(n) for n in names]]):
        ctx.oblige("paths")
        if k != "ok":
            eng.report("paths", Q, s, f"{what}: raises {show(v)}")
            continue
        d = diff(plain(s, v), expected(base, names[-1]), "schema")
        if d:
            eng.report("apart" if fn != "once" else "base" if "['paths']" not in d else "paths", Q, s, f"{what}: {d}")
        d = diff(plain(s, b), BASES[base], "base")
        if d:
            eng.report("apart", Q, s, f"{what}: the base schema changes: {d}")


def response(ctx, base, name):
    eng = ctx.engine(Env40())
    st = eng.start_state()
    b = lit(eng, st, BASES[base])
    for k, s, v in call(ctx, eng, st, "response", [b, C(name)]):
        ctx.oblige("response")
        rep = lambda t: eng.report("response", "starlette.schemas.OpenAPIResponse", s, f"base {base}, routes {name}: {t}")
        dumps = events(s, "dump")
        if k != "ok":
            rep(f"raises {show(v)}")
            continue
        if len(dumps) != 1:
            rep(f"{len(dumps)} schemas rendered")
            continue
        d = diff(plain(s, dumps[0][1]), expected(base, name), "schema")
        if d:
            rep(d)
        for k2, s2, body in eng.getattr(s, v, "body", None):
            if k2 != "ok" or body is not C(b"the schema"):
                rep(f"the body is {show(body)}")
            for k3, s3, raw in eng.getattr(s2, v, "raw_headers", None):
                got = [plain(s3, x.a[1]) for x in s3.heap[raw].items if x.tag == "tup" and x.a[0] is C(b"content-type")] if k3 == "ok" and raw.tag == "ref" else []
                if got != [b"application/vnd.oai.openapi"]:
                    rep(f"the content type is {got}")
