"""Path analysis of url_path_for, URLPath.make_absolute_url and Request.url_for.

A representative route table (every convertor, nested and nameless mounts, hosts, repeated names, a child whose own parameter is
called path) is asked for every name with unknown parameter values: the resulting path must be, piece by piece, the template
with each placeholder replaced by its convertor's text of the value - a value that is itself searched or replaced in is
visible as such - with the right protocol and host; every other combination of name and parameters must end in NoMatchFound.
Absolute URLs are decided on the pieces of scheme, authority and path.
"""
import ast

from ..mw import *
from .c02 import entry
from .c10 import Env10
from .common import *
from .. import strs, urls

CLIENT12 = '''
from starlette.applications import Starlette
from starlette.datastructures import URLPath, URL
from starlette.requests import Request
from starlette.routing import Route, WebSocketRoute, Mount, Host, Router
from starlette.convertors import Convertor, register_url_convertor

class Odd(Convertor):
    regex = "[13579]+x?"
    def convert(self, value):
        return conv_odd(value)
    def to_string(self, value):
        return str_odd(value)

async def ep(request):
    return None

async def ws_ep(websocket):
    return None

class Opaque:
    async def __call__(self, scope, receive, send):
        return None

opaque_app = Opaque()

def table():
    register_url_convertor("odd", Odd())
    return [
        Route("/users/{id:int}/{y:odd}", ep, name="user"),
        Route("/{a}/{b}.txt", ep, name="two"),
        Route("/first/{q}", ep, name="dup"),
        Route("/second/{q}", ep, name="dup"),
        Route("/other/{r}", ep, name="dup"),
        Route("/u/{k:uuid}/{z:path}", ep, name="mixed"),
        WebSocketRoute("/ws/{p:path}", ws_ep, name="ws"),
        Mount("/m/{t}", name="m", routes=[Route("/x/{y}", ep, name="child"), WebSocketRoute("/y", ws_ep, name="sock"),
                                          Mount("/deep/{d}", name="in", routes=[Route("/{path}", ep, name="leaf")])]),
        Mount("/s", name="static", app=opaque_app),
        Mount("/n", routes=[Route("/plain", ep, name="plain"), Route("/dup2/{q}", ep, name="dup")]),
        Host("{sub}.example.org", name="h", app=Router(routes=[Route("/x/{y}", ep, name="child"), Mount("/g", name="g", routes=[Route("/end", ep, name="end")])])),
        Host("static.example.org", app=Router(routes=[Route("/logo", ep, name="logo")])),
    ]

def ask(name, kw):
    return Router(routes=table()).url_path_for(name, **kw)

def ask_app(name, kw):
    return Starlette(routes=table()).url_path_for(name, **kw)

def absolute(path, protocol, host, base):
    return str(URLPath(path, protocol=protocol, host=host).make_absolute_url(base))

def absolute_url(path, protocol, host, base):
    return str(URLPath(path, protocol=protocol, host=host).make_absolute_url(base_url=URL(base)))

def url_for(scope):
    return str(Request(scope).url_for("n", x=value))

def plain(name, kw):
    try:
        return str(typed.url_path_for(name, **kw))
    except AssertionError:
        return "refused"

typed = Router(routes=[Route("/s/{a}.{b}", ep, name="s"), Route("/i/{n:int}", ep, name="i"), Route("/f/{x:float}/end", ep, name="f"),
                       Mount("/m/{t}", name="m", routes=[Route("/p/{p:path}", ep, name="p")])])

def router():
    return Router([Route("/y/{x}", ep, name="n")])

def app():
    return Starlette(routes=[Route("/z/{x}", ep, name="n")])
'''
Q = "starlette.routing."


def v(n):
    return S("v_" + n)


# name -> parameters, path pieces, protocol, host pieces
GOODCASES = [
    ("user", "id y", ["/users/", ("int", "id"), "/", ("odd", "y")], "http", []),
    ("two", "a b", ["/", v("a"), "/", v("b"), ".txt"], "http", []),
    ("dup", "q", ["/first/", v("q")], "http", []),
    ("dup", "r", ["/other/", v("r")], "http", []),
    ("mixed", "k z", ["/u/", v("k"), "/", v("z")], "http", []),
    ("ws", "p", ["/ws/", v("p")], "websocket", []),
    ("m:child", "t y", ["/m/", v("t"), "/x/", v("y")], "http", []),
    ("m:sock", "t", ["/m/", v("t"), "/y"], "websocket", []),
    ("m", "t path", ["/m/", v("t"), "/", ("lstrip", "path")], "", []),
    ("m:in:leaf", "t d path", ["/m/", v("t"), "/deep/", v("d"), "/", v("path")], "http", []),
    ("m:in", "t d path", ["/m/", v("t"), "/deep/", v("d"), "/", ("lstrip", "path")], "", []),
    ("static", "path", ["/s/", ("lstrip", "path")], "", []),
    ("plain", "", ["/n/plain"], "http", []),
    ("h:child", "sub y", ["/x/", v("y")], "http", [v("sub"), ".example.org"]),
    ("h:g:end", "sub", ["/g/end"], "http", [v("sub"), ".example.org"]),
    ("h", "sub path", [v("path")], "", [v("sub"), ".example.org"]),
    ("logo", "", ["/logo"], "http", ["static.example.org"]),
]
BADCASES = [("nope", ""), ("user", ""), ("user", "id"), ("user", "id y extra"), ("user", "id z"), ("two", "a"), ("ws", ""), ("ws", "p q"), ("dup", ""), ("dup", "q r"),
            ("m:child", "y"), ("m:child", "t"), ("m:child", "t y z"), ("m:nope", "t"), ("m", "t"), ("m", "path"), ("m", "t path extra"), ("mchild", "t y"), ("m:", "t y"),
            ("child", "t y"), ("static", ""), ("static", "path x"), ("static:plain", ""), ("h:child", "y"), ("h:child", "sub"), ("h", "path"), ("h", "sub path extra"),
            ("m:in:leaf", "t d"), ("m:in:leaf", "t path"), ("plain", "x"), ("logo", "x"), ("user:x", "id y"), ("", "")]


class Env12(Env10):
    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "str_odd":
            return ok(st, T("str_odd", *args))
        return super().on_call(eng, st, name, args, kwargs, node)


def piece(x):
    if isinstance(x, str):
        return [C(x)]
    if isinstance(x, tuple):
        t = v(x[1])
        return [{"int": T("call", "builtins.int", t), "odd": T("str_odd", t), "lstrip": T("m", "lstrip", t, C("/"))}[x[0]]]
    return [x]


def unstr(ps):
    return strs.merge([p.a[1] if is_t(p, "str") else p for p in ps])


def run(ctx):
    ctx.rule("path", "the URL path is the template (below the prefixes of its mounts) with every placeholder replaced by the text of its value, values taken as they are")
    ctx.rule("first", "the first route in order that has the name and exactly the parameters provides the URL")
    ctx.rule("protocol", "http for routes, websocket for websocket routes, none for a mount or host itself")
    ctx.rule("host", "the host of an enclosing Host, with its placeholders replaced")
    ctx.rule("refused", "an unknown name, or missing or additional parameters, is NoMatchFound")
    ctx.rule("values", "a str value is only used when it is not empty and has no slash; a negative int is refused; any value is written as its convertor writes it, whatever its type")
    ctx.rule("absolute", "an absolute URL has the scheme of the protocol (secure iff the base is), the host of the path or of the base, and base path + path")
    ctx.rule("url-for", "Request.url_for asks the router of the request (or the application) and starts from the application's root path and host")
    ctx.client(CLIENT12)
    env = Env12()
    eng = ctx.engine(env)
    for fn in ("ask", "ask_app"):
        for name, kws, path, proto, host in GOODCASES if fn == "ask" else GOODCASES[:7:3]:
            one(ctx, eng, fn, name, kws.split(), path, proto, host)
        for name, kws in BADCASES if fn == "ask" else BADCASES[:2]:
            one(ctx, eng, fn, name, kws.split(), None, None, None)
    for fn in ("absolute", "absolute_url"):
        for proto in ("", "http", "websocket"):
            for base, secure in (("http://h.example/", False), ("https://h.example/root/", True), ("wss://h.example:81", True), ("ws://h.example/a/b", False), ("https://u:p@h.example/r?q=1#f", True)):
                for host in ("", "other.example"):
                    absolute(ctx, eng, fn, proto, base, secure, host)
    url_for(ctx, eng)
    constants(ctx)
    ctx.need("constant", len(CONSTANTS))
    ctx.need("url", 15)
    ctx.need("refused", 25)
    ctx.need("absolute", 40)
    ctx.need("url_for", 8)
    ctx.assume("unknown hosts, ports and root paths contain no '?', '#' or (hosts) '/'")


CONSTANTS = [
    ("s", {"a": "x", "b": "y"}, "/s/x.y"), ("s", {"b": "{a}", "a": "{b}"}, "/s/{b}.{a}"), ("s", {"a": 5, "b": 0}, "/s/5.0"), ("s", {"a": 1.5, "b": True}, "/s/1.5.True"), ("s", {"a": None, "b": "z"}, "/s/None.z"),
    ("s", {"a": "x/", "b": "y"}, None), ("s", {"a": "x", "b": ""}, None), ("i", {"n": 0}, "/i/0"), ("i", {"n": 120}, "/i/120"), ("i", {"n": "007"}, "/i/7"), ("i", {"n": -1}, None), ("f", {"x": 0}, "/f/0/end"),
    ("f", {"x": 100.0}, "/f/100/end"), ("f", {"x": 0.5}, "/f/0.5/end"), ("f", {"x": "2.50"}, "/f/2.5/end"), ("f", {"x": -0.5}, None), ("f", {"x": float("nan")}, None), ("f", {"x": float("inf")}, None),
    ("m:p", {"t": 3, "p": "a//b/"}, "/m/3/p/a//b/"), ("m:p", {"t": "t", "p": 9}, "/m/t/p/9"), ("m:p", {"t": "t", "p": ""}, "/m/t/p/"), ("m:p", {"t": "", "p": "x"}, None), ("m", {"t": "t", "path": "/x"}, "/m/t/x"),
]


def constants(ctx):
    for name, kw, want in CONSTANTS:
        eng = ctx.engine(Env12())
        eng.concrete = 60
        st = eng.start_state()
        d = eng.new_dict(st, None, {C(k): C(x) for k, x in kw.items()})
        for k, s, r in eng.run_call(st, eng.force(st, eng.p.lookup_global(eng.p.client, "plain")), [C(name), d]):
            ctx.oblige("constant")
            t = r if k == "ok" and is_c(r) else None
            if t is None or cval(t) != (want or "refused"):
                eng.report("values", Q + "Router.url_path_for", s, f"url_path_for({name!r}, **{kw!r}) gives {show(r)}, expected {want or 'AssertionError'}")


def one(ctx, eng, fn, name, kws, path, proto, host):
    st = eng.start_state()
    for k in kws:
        if k not in ("id",):
            st.facts[v(k)] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
    if name == "mixed":
        del st.facts[v("k")]
        st.facts[v("k")] = Fact(ne=frozenset([NONE]))
    kw = eng.new_dict(st, None, {C(k): v(k) for k in kws})
    f = eng.force(st, eng.p.lookup_global(eng.p.client, fn))
    got_url = False
    for k, s, r in eng.run_call(st, f, [C(name), kw]):
        rep = lambda rule, text: eng.report(rule, Q + "Router.url_path_for", s, f"url_path_for({name!r}, {', '.join(kws)}): " + text)
        ctx.oblige("path")
        if k == "raise":
            cls = s.heap[r].cls if r.tag == "ref" else None
            q = getattr(cls, "qual", None) or (cls.a[0] if isinstance(cls, V) and cls.tag == "ext" else str(cls))
            if path is None:
                ctx.oblige("refused")
                if q != Q + "NoMatchFound" and not refusable(eng, s, name, kws):
                    rep("refused", f"raises {q}")
            elif q == Q + "NoMatchFound":
                rep("path", "NoMatchFound although a route has this name and these parameters")
            elif not refusable(eng, s, name, kws):
                rep("values", f"raises {q} for acceptable values")
            continue
        if path is None:
            rep("refused", f"gives {show_url(eng, s, r)}")
            continue
        got_url = True
        ctx.oblige("url")
        text = eng.text_of(s, r) if r.tag == "ref" else None
        if text is None:
            rep("path", f"is not a URL path: {show(r)}")
            continue
        got = unstr(strs.pieces(eng, s, text) if not is_c(text) else [text])
        want = strs.merge([p for x in path for p in piece(x)])
        if got != want:
            rep("first" if name == "dup" else "path", f"path is {urls.text(got)}, expected {urls.text(want)}")
        d = s.heap[r].d
        if d.get("protocol") is not C(proto):
            rep("protocol", f"protocol is {show(d.get('protocol', NONE))}")
        h = d.get("host", NONE)
        if unstr(strs.pieces(eng, s, h)) != strs.merge([p for x in host for p in piece(x)] or [C("")]) and not (h is C("") and not host):
            rep("host", f"host is {show(h)}")
        for n in kws:
            if v(n) in {t for x in ("a", "b", "q", "r", "t", "y", "d", "sub") for t in [v(x)]} and not (name == "user" and n == "y") or n == "path" and name.endswith("leaf"):
                if eng.truth(s, v(n)) is not True or eng.truth(s, T("in", C("/"), v(n))) is not False:
                    rep("values", f"the str parameter {n} is used without establishing that it is not empty and contains no '/'")
        if name == "user":
            i = T("call", "builtins.int", v("id"))
            if [eng.truth(s2, x) for _, s2, x in eng.compare(s.fork(), ast.Lt(), i, C(0), None)] != [False]:
                rep("values", "a negative int is not refused")
    if path is not None and not got_url:
        eng.report("path", Q + "Router.url_path_for", st, f"url_path_for({name!r}, {', '.join(kws)}) never gives a URL")


def refusable(eng, s, name, kws):
    """the path has established a value no convertor can write"""
    for n in kws:
        if eng.truth(s, v(n)) is False or eng.truth(s, T("in", C("/"), v(n))) is True:
            return True
        if any((is_t(t, "lt") or is_t(t, "pos")) and mentions(t, v(n)) for t in s.facts):
            return True
        st = T("str", v(n))
        if eng.truth(s, st) is False or eng.truth(s, T("in", C("/"), st)) is True:
            return True
    return False


def show_url(eng, s, r):
    t = eng.text_of(s, r) if r.tag == "ref" else None
    if t is None:
        return show(r)
    return urls.text(strs.pieces(eng, s, t)) + (" on host " + show(s.heap[r].d.get("host")) if s.heap[r].d.get("host") not in (C(""), None) else "")


def absolute(ctx, eng, fn, proto, base, secure, host):
    from urllib.parse import urlsplit
    st = eng.start_state()
    st.facts[S("path")] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
    u = urlsplit(base)
    scheme = {"": u.scheme, "http": "https" if secure else "http", "websocket": "wss" if secure else "ws"}[proto]
    want = strs.merge([C(f"{scheme}://{host or u.netloc}{u.path.rstrip('/')}"), S("path")])
    f = eng.force(st, eng.p.lookup_global(eng.p.client, fn))
    for k, s, r in eng.run_call(st, f, [S("path"), C(proto), C(host), C(base)]):
        ctx.oblige("absolute")
        got = urls.norm(eng, s, r) if k == "ok" else None
        if got is None or unstr(got) != want:
            eng.report("absolute", "starlette.datastructures.URLPath.make_absolute_url", s, f"protocol {proto!r}, host {host!r}, base {base}: {k} {urls.text(got) if got else show(r)}, expected {urls.text(want)}")


def url_for(ctx, eng):
    st0 = eng.start_state()
    for st1, router in entry(eng, st0, "router", []):
        for st2, app in entry(eng, st1, "app", []):
            for who in ("router", "app", "both", "none"):
                for scheme in ("http", "https"):
                    for rp in ("none", "root", "app_root"):
                        st = st2.fork()
                        st.facts[S("value")] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
                        extra = {"path": S("path"), "scheme": C(scheme), "query_string": S("query"), "server": Tup([C("server.test"), C(8000)])}
                        st.facts[T("in", C("host"), S("headers"))] = Fact(tr=False)
                        if who in ("router", "both"):
                            extra["router"] = router
                        else:
                            st.facts[T("in", C("router"), SCOPE)] = Fact(tr=False)
                        if who in ("app", "both"):
                            extra["app"] = app
                        else:
                            st.facts[T("in", C("app"), SCOPE)] = Fact(tr=False)
                        root = C("")
                        if rp == "none":
                            st.facts[T("in", C("root_path"), SCOPE)] = Fact(tr=False)
                        else:
                            extra["root_path"] = S("pathinner") if rp == "app_root" else S("pathroot")
                            root = S("pathroot")
                        if rp == "app_root":
                            extra["app_root_path"] = S("pathroot")
                        else:
                            st.facts[T("in", C("app_root_path"), SCOPE)] = Fact(tr=False)
                        if rp != "none":
                            for x in ("pathroot", "pathinner"):
                                st.facts[S(x)] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
                        scope = new_scope(eng, st, "http", **extra)
                        f = eng.force(st, eng.p.lookup_global(eng.p.client, "url_for"))
                        for k, s, r in eng.run_call(st, f, [scope]):
                            rep = lambda text: eng.report("url-for", "starlette.requests.HTTPConnection.url_for", s, f"scope with {who}, {scheme}, {rp}: " + text)
                            ctx.oblige("url_for")
                            if who == "none":
                                if k != "raise":
                                    rep("gives a URL without a router or application")
                                continue
                            if k == "raise":
                                if not refusable(eng, s, "n", []) and eng.truth(s, S("value")) is not False and eng.truth(s, T("in", C("/"), S("value"))) is not True:
                                    rep(f"raises {show(r)}")
                                continue
                            got = [p for p in urls.norm(eng, s, r)]
                            tail = [C("/y/" if who != "app" else "/z/"), S("value")]
                            auth = [p for p in got if mentions(p, C("headers"))]
                            ends = eng.truth(s, T("m", "endswith", S("pathroot"), C("/")))
                            roots = [[]] if rp == "none" else [[T("m", "rstrip", S("pathroot"), C("/"))]] + ([[S("pathroot")]] if ends is False else [])
                            heads = [[C(f"{scheme}://server.test:8000")]] + ([[C(f"{scheme}://"), auth[0]]] if auth else [])
                            if unstr(got) not in [strs.merge(h + x + tail) for h in heads for x in roots]:
                                rep(f"gives {urls.text(unstr(got))}")
