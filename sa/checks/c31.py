"""The views a connection gives of its scope, by path analysis of client programs with symbolic scope values.

Request and WebSocket objects over scopes with every subset of the optional entries are observed through every public accessor; State
objects are driven by all short operation sequences; cookie strings are parsed by constant propagation against a reference splitter.
"""
from itertools import product
from http import cookies as http_cookies

from ..mw import *
from .c20 import value
from .c30 import call, lit
from .common import *

CLIENT31 = '''
from starlette.requests import Request, HTTPConnection
from starlette.websockets import WebSocket
from starlette.datastructures import State

async def nothing(*args):
    pass

def make(kind, scope):
    if kind == "connection":
        return HTTPConnection(scope)
    if kind == "request":
        return Request(scope)
    if kind == "request full":
        return Request(scope, nothing, nothing)
    return WebSocket(scope, nothing, nothing)

def access(c, name):
    try:
        return "ok", getattr(c, name)
    except AssertionError:
        return "missing", None
    except KeyError:
        return "missing", None

def views(kind, scope, names):
    c = make(kind, scope)
    return [access(c, n) for n in names], len(c), list(c), [c[k] for k in scope], [k in c for k in scope], "nope" in c, c.get("nope"), c.get("type"), c == c, c == make(kind, scope), c.scope is scope

def connect(kind, scope):
    try:
        make(kind, scope)
    except AssertionError:
        return "refused"
    return "ok"

def client(kind, scope):
    c = make(kind, scope).client
    if c is None:
        return None
    return c.host, c.port

def cookies(kind, scope):
    c = make(kind, scope)
    return dict(c.cookies), c.cookies == c.cookies

def step(s, op, name, v):
    try:
        if op == "set":
            setattr(s, name, v)
        elif op == "get":
            return "ok", getattr(s, name)
        elif op == "del":
            delattr(s, name)
        elif op == "has":
            return "ok", hasattr(s, name)
        elif op == "default":
            return "ok", getattr(s, name, "dflt")
    except AttributeError:
        return "absent", None
    except KeyError:
        return "absent", None
    return "ok", None

def state_ops(init, ops):
    s = State(init)
    return [step(s, op, name, v) for op, name, v in ops]

def state_scope(kind, scope, kind2, ops):
    a, b = make(kind, scope), make(kind2, scope)
    out = []
    for i, (op, name, v) in enumerate(ops):
        out.append(step(a.state if i % 2 == 0 else b.state, op, name, v))
    return out, scope["state"]

def state_apart(x, y):
    s, t = State(), State()
    s.a = x
    return hasattr(t, "a"), s.a, State({"a": y}).a

async def push(scope, path):
    sent = []
    async def send(message):
        sent.append(message)
    await Request(scope, nothing, send).send_push_promise(path)
    return sent

def query(kind, scope):
    c = make(kind, scope)
    return c.query_params.multi_items(), c.headers.items()

def nested(kind, scope, child_scope):
    a, b = make(kind, scope), make(kind, child_scope)
    a.cookies, b.cookies
    return dict(a.cookies), dict(b.cookies), a.headers.items(), b.headers.items(), a.query_params.multi_items(), b.query_params.multi_items()
'''
Q = "starlette.requests.HTTPConnection"
OPT = ("app", "auth", "user", "session", "path_params")
COOKIES = ["", "a=1", "a=1; b=2", "a=1;b=2", " a = 1 ;  b =2 ", "a=1; a=2", "flag", "flag; a=1", "=x", "a=", "a=b=c", ";;", "; ;a=1;", 'q="quo ted"', 'q="a\\073b"', 'q="a;b"', "k=v; Path=/; $x=y", "a=\"\\\"\"", "e=%20+é", "=; a=1", "a=1,b=2"]


class Env31(MwEnv):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "http.cookies._unquote" and is_c(eng.known(st, args[0])):
            return ok(st, C(http_cookies._unquote(cval(eng.known(st, args[0])))))
        return super().on_ext(eng, st, q, args, kwargs, node)


def ref_cookies(s):
    out = {}
    for part in s.split(";"):
        k, eq, v = part.partition("=")
        if not eq:
            k, v = "", part
        k, v = k.strip(), v.strip()
        if k or v:
            out[k] = http_cookies._unquote(v)
    return out


KINDS = ("connection", "request", "request full", "websocket")


def base(kind, **extra):
    return {"type": "websocket" if kind == "websocket" else "http", "method": "GET", "headers": [], "query_string": b"", **extra}


def engine(ctx):
    eng = ctx.engine(Env31())
    eng.concrete = 60
    eng.models = {k: f for k, f in eng.models.items() if not k.startswith(("starlette.datastructures.Headers.", "starlette.datastructures.MutableHeaders."))}
    return eng


def play(ctx, rule, fn, args, check, what):
    eng = engine(ctx)
    st = eng.start_state()
    for k, s, v in call(ctx, eng, st, fn, [x(eng, st) if callable(x) else lit(eng, st, x) for x in args]):
        ctx.oblige(rule)
        t = f"raises {value(s, v)}" if k != "ok" else check(s, v)
        if t:
            eng.report(rule, Q, s, f"{what}: {t}")


def run(ctx):
    ctx.rule("views", "app, auth, user, session and path_params are the very objects of the scope, missing ones are refused (path_params: empty); the mapping protocol is the scope's; connections compare by identity")
    ctx.rule("type", "a connection is refused for a scope of another type")
    ctx.rule("client", "client is the host and port of the scope, None without")
    ctx.rule("cookies", "cookies are the name=value pairs of the Cookie header, the last of a name, stripped and unquoted")
    ctx.rule("state", "State gives, sets and deletes the entries of the dictionary it was made for; request.state is scope['state'] for every connection on the scope")
    ctx.rule("push", "a push promise is sent once, with the path and the headers to copy, exactly when the server supports it")
    ctx.rule("apart", "headers, cookies and query parameters are those of the connection's own scope")
    ctx.client(CLIENT31)
    for kind in KINDS:
        for n in range(2 ** len(OPT)):
            views(ctx, kind, [o for i, o in enumerate(OPT) if n >> i & 1])
        for typ in ("http", "websocket", "lifespan", "other"):
            sc = dict(base(kind), type=typ)
            good = {"connection": ("http", "websocket"), "websocket": ("websocket",)}.get(kind, ("http",))
            play(ctx, "type", "connect", [kind, sc], lambda s, v: None if value(s, v) == ("ok" if typ in good else "refused") else f"is {value(s, v)}", f"{kind} over a scope of type {typ}")
        h, p = S("host"), S("port")
        for sc, want in ((base(kind), NONE), (base(kind, client=None), NONE), (base(kind, client=lambda e, s: Tup([h, p])), Tup([h, p])), (base(kind, client=lambda e, s: e.new_list(s, "client", [h, p])), Tup([h, p]))):
            play(ctx, "client", "client", [kind, lazy(sc)], lambda s, v: None if v is want else f"is {show(v)}", f"{kind}.client")
        for c in COOKIES:
            want = ref_cookies(c)
            sc = base(kind, headers=[(b"x", b"y"), (b"cookie", c.encode("latin-1"))])
            play(ctx, "cookies", "cookies", [kind, sc], lambda s, v: None if value(s, v) == (want, True) else f"are {value(s, v)}, expected {want}", f"{kind}.cookies for {c!r}")
        play(ctx, "cookies", "cookies", [kind, base(kind)], lambda s, v: None if value(s, v) == ({}, True) else f"are {value(s, v)}", f"{kind}.cookies without a header")
        states(ctx, kind)
        one, two = base(kind, headers=[(b"cookie", b"a=1"), (b"x", b"1")], query_string=b"q=1"), base(kind, headers=[(b"cookie", b"a=2"), (b"x", b"2")], query_string=b"q=2&q=3")
        play(ctx, "apart", "nested", [kind, one, two], lambda s, v: None if value(s, v) == ({"a": "1"}, {"a": "2"}, [("cookie", "a=1"), ("x", "1")], [("cookie", "a=2"), ("x", "2")], [("q", "1")], [("q", "2"), ("q", "3")]) else f"give {value(s, v)}", f"two {kind} objects")
    for init in (None, {}, {"a": "init"}):
        for n in (1, 2, 3):
            for names in product([(o, k) for o in ("set", "get", "del", "has", "default") for k in ("a", "b")], repeat=n):
                if n == 3 and (names[0][0] not in ("set", "del") or names[2][0] == "set"):
                    continue
                ops = [(o, k, f"v{i}") for i, (o, k) in enumerate(names)]
                play(ctx, "state", "state_ops", [init, ops], lambda s, v: agree(value(s, v), ref_state(dict(init or {}), ops)), f"State({init}) {names}")
    x, y = S("x"), S("y")
    play(ctx, "state", "state_apart", [lambda e, s: x, lambda e, s: y], lambda s, v: None if v is Tup([FALSE, x, y]) else f"two states share {show(v)}", "two State objects")
    push(ctx)
    ctx.need("views", 100)
    ctx.need("cookies", 60)
    ctx.need("state", 300)
    ctx.assume("http.cookies._unquote is the documented unquoting of cookie values")


def agree(got, want):
    return None if got == want else f"gives {got}, expected {want}"


def lazy(sc):
    """a scope literal some of whose values are made from the state"""
    def f(eng, st):
        d = lit(eng, st, {k: (None if callable(v) else v) for k, v in sc.items()})
        for k, v in sc.items():
            if callable(v):
                st.heap[d] = st.heap[d].put(C(k), v(eng, st))
        return d
    return f


def views(ctx, kind, opts):
    sc = base(kind)
    vals = {o: S(f"the {o}") for o in opts}
    for o in opts:
        sc[o] = (lambda v: lambda e, s: v)(vals[o])
    names = OPT if kind != "type" else ()

    def check(s, v):
        got, n, keys, items, inside, nope, dflt, typ, same, other, scope = v.a
        for o, g in zip(names, s.heap[got].items):
            how, x = g.a
            if o in opts:
                if how is not C("ok") or x is not vals[o]:
                    return f"{o} is {show(x)}, the scope has {show(vals[o])}"
            elif o == "path_params":
                if how is not C("ok") or value(s, x) != {}:
                    return f"path_params without an entry is {show(x)}"
            elif how is not C("missing"):
                return f"{o} without an entry is {show(x)}"
        if value(s, keys) != list(sc) or n is not C(len(sc)):
            return f"iterates {value(s, keys)}, length {show(n)}"
        if [x for x in s.heap[items].items if x.tag == "t"] != [vals[o] for o in sc if o in vals] or not all(x is TRUE for x in s.heap[inside].items):
            return "the items are not those of the scope"
        if nope is not FALSE or dflt is not NONE or typ is not C(sc["type"]):
            return "get or in of the mapping is wrong"
        if same is not TRUE or other is not FALSE or scope is not TRUE:
            return "is not compared by identity, or has another scope"
    play(ctx, "views", "views", [kind, lazy(sc), list(names)], check, f"{kind} with {', '.join(opts) or 'nothing'}")


def ref_state(d, ops):
    out = []
    for o, k, v in ops:
        r = ("ok", None)
        if o == "set":
            d[k] = v
        elif o == "has":
            r = ("ok", k in d)
        elif o == "default":
            r = ("ok", d.get(k, "dflt"))
        elif k not in d:
            r = ("absent", None)
        elif o == "get":
            r = ("ok", d[k])
        else:
            del d[k]
        out.append(r)
    return out


def states(ctx, kind):
    kind2 = "connection" if kind != "connection" else "request"
    if kind == "websocket":
        kind2 = "connection"
    ops = [("set", "a", "1"), ("get", "a", ""), ("set", "b", "2"), ("get", "b", ""), ("get", "c", ""), ("del", "a", ""), ("has", "a", ""), ("has", "b", "")]
    for init in (None, {}, {"c": "c0"}):
        sc = base(kind, **({"state": init} if init is not None else {}))
        d = dict(init or {})
        want = ref_state(d, ops)
        made = {}

        def scope(eng, st):
            made["scope"] = r = lit(eng, st, sc)
            made["state"] = st.heap[r].d.get(C("state"))
            return r

        def check(s, v):
            if made["state"] is not None and v.a[1] is not made["state"]:
                return "the scope has another state dictionary than before"
            return agree(value(s, v), (want, d))
        play(ctx, "state", "state_scope", [kind, scope, kind2, ops], check, f"{kind}.state and {kind2}.state with scope state {init}")


def push(ctx):
    copied = ("accept", "accept-encoding", "accept-language", "cache-control", "user-agent")
    hs = [(b"host", b"h"), (b"cookie", b"c"), (b"accept", b"a1"), (b"user-agent", b"u"), (b"accept", b"a2"), (b"authorization", b"z"), (b"cache-control", b"no"), (b"accept-encoding", b"gzip"), (b"accept-language", b"de")]
    p = S("path")
    for ext in (None, {}, {"http.response.push": {}}, {"http.response.debug": {}, "http.response.push": {}}, {"http.response.debug": {}}):
        for headers in (hs, [], hs[:3]):
            sc = base("request", headers=headers, **({"extensions": ext} if ext is not None else {}))

            def check(s, v):
                sent = s.heap[v].items
                if not (ext and "http.response.push" in ext):
                    return "sends without the extension" if sent else None
                if len(sent) != 1:
                    return f"sends {len(sent)} messages"
                m = s.heap[sent[0]].d
                got = value(s, m.get(C("headers"), NONE))
                if m.get(C("type")) is not C("http.response.push") or m.get(C("path")) is not p or len(m) != 3:
                    return f"sends {value(s, sent[0])}"
                want = [h for h in headers if h[0].decode() in copied]
                if not isinstance(got, list) or sorted(got) != sorted(want) or [h for h in got if h[0] == b"accept"] != [h for h in want if h[0] == b"accept"]:
                    return f"copies {got}"
            play(ctx, "push", "push", [sc, lambda e, s: p], check, f"extensions {ext}, {len(headers)} headers")
