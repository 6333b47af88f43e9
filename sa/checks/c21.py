"""URL, URLPath and Secret values, by constant propagation through client programs.

A table of URLs (user info with and without password, '@' and ':' inside it, IPv6 literals, no host, no scheme, blank and repeated query
values, empty components) is taken through every component property, every single and many combined replacements and every query
operation; each result is compared with the URL reassembled from its components by an independent definition.  URLs of connections
are built from scopes with and without a Host header, a server, a default port and a query string.  A Secret and a URL password are
unknown texts in the repr, which must not mention them.
"""
from itertools import combinations, product
from urllib.parse import parse_qsl, urlencode, urlsplit, urlunsplit

from ..mw import *
from .c20 import value
from .c30 import call, lit
from .common import *

CLIENT21 = '''
from starlette.datastructures import URL, URLPath, Secret
from starlette.requests import HTTPConnection, Request
from starlette.websockets import WebSocket

class MyURL(URL):
    pass

def text(u):
    return str(u)

def parts(url):
    u = URL(url)
    return u.scheme, u.netloc, u.path, u.query, u.fragment, u.username, u.password, u.hostname, u.port, u.is_secure, str(u)

def replace(url, kw):
    u = URL(url)
    r = u.replace(**kw)
    return isinstance(r, URL), str(r), str(u)

def replace_again(url, kw):
    u = URL(url)
    p = (u.scheme, u.netloc, u.path, u.query, u.fragment, u.username, u.password, u.hostname, u.port)
    r = u.replace(**kw)
    return type(r) is URL, str(r), str(u)

def build(kw):
    u = URL(**kw)
    return str(u)

def include(url, kw):
    u = URL(url)
    return str(u.include_query_params(**kw)), str(u)

def only(url, kw):
    u = URL(url)
    return str(u.replace_query_params(**kw)), str(u)

def remove(url, keys):
    u = URL(url)
    return str(u.remove_query_params(keys)), str(u)

def shown(url):
    return repr(URL(url)), repr(MyURL(url)), str(URL(url))

def equal(a, b):
    return URL(a) == URL(b), URL(a) == b, URL(a) != URL(b), URL(a) != b

def from_scope(scope):
    return str(URL(scope=scope))

def from_connection(kind, scope):
    if kind == "websocket":
        return str(WebSocket(scope, None, None).url)
    return str(Request(scope).url)

def base(scope):
    r = Request(scope)
    first = str(r.base_url)
    assert str(r.base_url) == first
    r.url
    return first

def refused(kind, scope):
    if kind == "url and scope":
        URL("http://h/", scope=scope)
    elif kind == "url and components":
        URL("http://h/", path="/x")
    elif kind == "scope and components":
        URL(scope=scope, path="/x")

def absolute(path, protocol, host, base, wrap):
    p = URLPath(path, protocol=protocol, host=host)
    r = p.make_absolute_url(URL(base) if wrap else base)
    return str(r), isinstance(r, URL), str(p), p.protocol, p.host

def secret_shown(value):
    s = Secret(value)
    return repr(s), f"{s!r}", "%r" % (s,), "{!r}".format(s)

def secret_text(value):
    s = Secret(value)
    return str(s), f"{s}", "%s" % s, bool(s)
'''
Q = "starlette.datastructures.URL"
F = ("scheme", "netloc", "path", "query", "fragment")

URLS = [
    "https://example.org/foo?a=1&b=2#frag", "http://example.org:8080/", "http://user@example.org/x", "https://user:pw@example.org:123/x?q=1",
    "ws://[::1]:8000/ws", "wss://[fe80::1]/ws?x", "http://u:p@[::1]/", "http://u:p@[2001:db8::1]:99/a#f", "http://u:p@ss@h:1/", "http://a:b:c@h/",
    "postgresql://user:pw@/db", "redis://:pw@/0", "/path?x=1#f", "//host:1/p?q", "http://example.org", "http://example.org?x=1", "", "HTTPS://Example.ORG/Path",
    "http://h/?a=&b=1&b=2&c", "http://h/?a=%20x+y&%C3%A9=1&a%5B%5D=3", "sqlite:///db.sqlite", "mailto:a@b", "http://h/a%2Fb;p=1?x=%26#y?z", "http://:@h/",
    "http://pw:pw@pw/pw?pw#pw",
]


def auth(netloc):
    """(user, password, host text, port text) of an authority; None where absent"""
    info, at, hp = netloc.rpartition("@")
    user, pw = (info.split(":", 1) + [None])[:2] if at else (None, None)
    end = hp.find("]") + 1
    i = hp.rfind(":")
    host, port = (hp[:i], hp[i + 1:]) if i >= end and i >= 0 else (hp, None)
    return user, pw, host, port or None


def spec_parts(url):
    u = urlsplit(url)
    user, pw, host, port = auth(u.netloc)
    host = (host[1:-1] if host.startswith("[") else host).lower() or None
    return (*u, user, pw, host, int(port) if port else None, u.scheme in ("https", "wss"), url)


def spec_replace(url, kw):
    u = dict(zip(F, urlsplit(url)))
    a = dict(zip(("username", "password", "hostname", "port"), auth(u["netloc"])))
    own = {k: v for k, v in kw.items() if k in a}
    u.update({k: v for k, v in kw.items() if k in F})
    if own:
        a.update(own)
        info = "" if a["username"] is None else a["username"] + ("" if a["password"] is None else ":" + a["password"]) + "@"
        u["netloc"] = info + a["hostname"] + ("" if a["port"] is None else f":{a['port']}")
    return urlunsplit([u[k] for k in F])


def spec_query(url, kw=None, drop=(), keep=True):
    u = urlsplit(url)
    kw = {k: str(v) for k, v in (kw or {}).items()}
    old = [(k, v) for k, v in parse_qsl(u.query, keep_blank_values=True) if k not in kw and k not in drop] if keep else []
    return urlunsplit([u.scheme, u.netloc, u.path, urlencode(old + list(kw.items())), u.fragment])


class ConstURL:
    """urlsplit of a constant is the tuple of its components, with the attributes and methods of a SplitResult"""

    def on_ext(self, eng, st, q, args, kwargs, node):
        last = q.rsplit(".", 1)[-1]
        if q.startswith("urllib.parse.") and last in ("urlsplit", "urlparse", "urlunsplit", "SplitResult"):
            if last == "SplitResult" and len(args) + len(kwargs) == 5:
                return ok(st, Tup([kwargs.get(k, a) for k, a in zip(F, list(args) + [None] * 5)]))
            t = eng.known(st, args[0]) if args else None
            if last == "urlunsplit" and t is not None:
                xs = self.strings(st, t)
                return ok(st, C(urlunsplit(xs))) if xs else None
            if last == "urlsplit" and t is not None and is_c(t) and isinstance(cval(t), str):
                try:
                    return ok(st, Tup([C(x) for x in urlsplit(cval(t))]))
                except ValueError:
                    return [("raise", st, eng.new_inst(st, node, Ext("builtins.ValueError")))]
        return super().on_ext(eng, st, q, args, kwargs, node)

    def strings(self, st, t):
        xs = list(t.a) if t.tag == "tup" else list(st.heap[t].items) if t.tag == "ref" and st.heap[t].kind == "list" else []
        return [cval(x) for x in xs] if len(xs) == 5 and all(is_c(x) and isinstance(cval(x), str) for x in xs) else None

    def getattr(self, eng, st, b, name, node):
        if b.tag == "tup" and len(b.a) == 5:
            xs = self.strings(st, b)
            if name in ("geturl", "_replace", "_asdict"):
                return ok(st, T("attr", b, name))
            if name in F:
                return ok(st, b.a[F.index(name)])
            if xs and name in ("username", "password", "hostname", "port"):
                from urllib.parse import SplitResult
                try:
                    return ok(st, C(getattr(SplitResult(*xs), name)))
                except ValueError:
                    return [("raise", st, eng.new_inst(st, node, Ext("builtins.ValueError")))]
        return super().getattr(eng, st, b, name, node)

    def on_method(self, eng, st, b, name, args, kwargs, node):
        if b.tag == "tup" and len(b.a) == 5:
            xs = self.strings(st, b)
            if name == "geturl" and xs:
                return ok(st, C(urlunsplit(xs)))
            if name == "_replace" and not args:
                if any(k not in F for k in kwargs):
                    return [("raise", st, eng.new_inst(st, node, Ext("builtins.ValueError")))]
                return ok(st, Tup([kwargs.get(k, x) for k, x in zip(F, b.a)]))
            if name == "_asdict" and not args:
                return ok(st, eng.new_dict(st, node, {C(k): x for k, x in zip(F, b.a)}, None))
        return super().on_method(eng, st, b, name, args, kwargs, node)


class Env21(ConstURL, MwEnv):
    pass


def go(ctx, name, *args):
    eng = ctx.engine(Env21())
    eng.concrete = 60
    st = eng.start_state()
    return eng, call(ctx, eng, st, name, [a if isinstance(a, V) else lit(eng, st, a) for a in args])


def expect(ctx, rule, what, fn, args, want, where=Q, kind="ok"):
    eng, outs = go(ctx, fn, *args)
    if not outs:
        ctx.undecided(rule, f"{what}: no outcome")
    for k, s, v in outs:
        ctx.oblige(rule)
        got = value(s, v)
        if k != kind:
            eng.report(rule, where, s, f"{what}: {k} {got}")
        elif want is not None and got != want:
            eng.report(rule, where, s, f"{what}: {got}, expected {want}")


OWN = [{"username": "bob"}, {"username": None}, {"password": "new"}, {"password": None}, {"hostname": "other.test"}, {"hostname": "[::2]"}, {"port": 99}, {"port": None}]
REST = [{"scheme": "ftp"}, {"path": "/new"}, {"query": "n=1"}, {"fragment": "new"}, {"query": ""}, {"fragment": ""}, {"netloc": "n:1"}]


def merged(ds):
    out = {}
    for d in ds:
        if set(d) & set(out):
            return None
        out.update(d)
    return out


def replacements(ctx):
    for i, url in enumerate(URLS):
        user, pw, host, port = auth(urlsplit(url).netloc)
        sets = [{}] + REST + OWN + [merged(x) for x in list(combinations(OWN, 2)) + [(a, b) for a in OWN for b in REST[:4]]]
        if ctx.tier != "quick":
            sets += [merged(x) for x in combinations(OWN, 3)] + [merged(x) for x in combinations(OWN + REST[:4], 4)]
        elif i % 3:
            sets = sets[:len(REST) + len(OWN) + 1] + sets[len(REST) + len(OWN) + 1 + i % 3::3]
        for kw in sets:
            if kw is None:
                continue
            if kw.get("password") is not None and kw.get("username", user) is None:
                continue    # a password without a user name has no meaning
            if {"username", "password", "port"} & set(kw) and "hostname" not in kw and not host and user is None and port is None:
                continue    # nor have these without a host
            want = spec_replace(url, kw)
            expect(ctx, "replace", f"URL({url!r}).replace({kw})", "replace" if i % 2 else "replace_again", [url, kw], (True, want, url), Q + ".replace")


def run(ctx):
    ctx.rule("components", "every component property is that component of the URL")
    ctx.rule("replace", "replacing components changes these and nothing else; the original is unchanged")
    ctx.rule("query", "including, replacing and removing query parameters changes the named ones only, blank and repeated values are kept")
    ctx.rule("repr", "the repr of a URL is the URL with its password masked; it never fails")
    ctx.rule("scope", "the URL of a connection has its scheme, the Host header or else the server (without default port), its path and query")
    ctx.rule("base", "the base URL of a connection has its scheme, host and the root path of the application with one trailing slash, no query")
    ctx.rule("arguments", "a URL is made from exactly one of text, scope and components")
    ctx.rule("absolute", "a URL path becomes absolute with its own host and protocol, else the base's, under the base's path and security")
    ctx.rule("secret", "the repr of a Secret does not mention its value, its str is the value")
    ctx.client(CLIENT21)
    for url in URLS:
        expect(ctx, "components", f"the components of {url!r}", "parts", [url], spec_parts(url))
    replacements(ctx)
    for kw in ({"scheme": "https", "netloc": "h:1", "path": "/p", "query": "a=1", "fragment": "f"}, {"scheme": "https", "hostname": "h", "path": "/p"},
               {"scheme": "http", "hostname": "h", "port": 1, "username": "u", "password": "p", "path": "/", "query": "x"}, {"path": "/only"},
               {"scheme": "ws", "hostname": "[::1]", "port": 8000}):
        expect(ctx, "components", f"URL(**{kw})", "build", [kw], spec_replace("", kw))
    queries = ["http://h/", "http://u:p@h:1/x?a=1#f", "http://h/?a=1&b=2&a=3", "http://h/?a=&b=1&b=2&c", "http://h/?a=%20x+y&%C3%A9=1&a%5B%5D=3", "/p?a=1&&b=2", "http://h/?A=1&a=2",
               "http://h/?q=%26%3D%2B&=v"]
    for url in queries:
        for kw in ({}, {"a": "2"}, {"z": "x y&="}, {"a": 1, "b": ""}, {"c": None, "a": "é"}, {"search": "True", "page": 3}):
            expect(ctx, "query", f"URL({url!r}).include_query_params(**{kw})", "include", [url, kw], (spec_query(url, kw), url), Q + ".include_query_params")
            expect(ctx, "query", f"URL({url!r}).replace_query_params(**{kw})", "only", [url, kw], (spec_query(url, kw, keep=False), url), Q + ".replace_query_params")
        for keys in ("a", "b", "zz", "abc", [], ["a"], ["a", "b"], ["b", "zz", "b"], ("c", "a"), ("é",), ["a[]"]):
            drop = (keys,) if isinstance(keys, str) else keys
            expect(ctx, "query", f"URL({url!r}).remove_query_params({keys!r})", "remove", [url, keys], (spec_query(url, drop=drop), url), Q + ".remove_query_params")
    for url in URLS:
        u = urlsplit(url)
        user, pw, host, port = auth(u.netloc)
        want = spec_replace(url, {"password": "********"}) if pw else url
        expect(ctx, "repr", f"repr(URL({url!r}))", "shown", [url], (f"URL({want!r})", f"MyURL({want!r})", url), Q + ".__repr__")
    for a, b in product(("http://h/", "http://h/?", "http://H/", "/x", ""), repeat=2):
        e = a == b
        expect(ctx, "components", f"URL({a!r}) == URL({b!r})", "equal", [a, b], (e, e, not e, not e))
    scopes(ctx)
    absolutes(ctx)
    secrets(ctx)
    ctx.need("components", 20)
    ctx.need("replace", 300)
    ctx.need("query", 100)
    ctx.need("repr", 20)
    ctx.need("scope", 40)
    ctx.need("absolute", 20)
    ctx.need("secret", 2)


def scopes(ctx):
    default = {"http": 80, "https": 443, "ws": 80, "wss": 443}
    hosts = [[], [(b"host", b"example.org:123")], [(b"x-host", b"no"), (b"accept", b"*/*"), (b"host", b"a.test"), (b"host", b"b.test")], [(b"host", b"[::1]:8000")]]
    servers = [None, ("1.2.3.4", 80), ("::1", 8000), ("fe80::1", 443), ("testserver", 443), ["testserver", 8000]]
    queries = [None, b"", b"a=1&b=%20&b=", b"q=?#"[:3]]
    n = 0
    for scheme, headers, server in product((None, "http", "https", "ws", "wss"), hosts, servers):
        n += 1
        for path, query in ([("/", None), ("/a b", b"a=1&b=%20&b=")], [("/x/y", b""), ("/", b"q=?")])[n % 2]:
            scope = {"type": "websocket" if scheme in ("ws", "wss") else "http", "path": path, "headers": headers}
            if scheme:
                scope["scheme"] = scheme
            if server is not None or n % 3:
                scope["server"] = server
            if query is not None:
                scope["query_string"] = query
            sch = scheme or "http"
            host = next((v.decode() for k, v in headers if k == b"host"), None)
            if host is None and server is not None:
                host = (f"[{server[0]}]" if ":" in server[0] else server[0]) + ("" if server[1] == default[sch] else f":{server[1]}")
            want = (f"{sch}://{host}" if host is not None else "") + path + ("?" + query.decode() if query else "")
            expect(ctx, "scope", f"the URL of {scope}", "from_scope", [scope], want, Q)
            expect(ctx, "scope", f"the url of a connection {scope}", "from_connection", [scope["type"], {**scope, "method": "GET"}], want, "starlette.requests.HTTPConnection.url")
            roots = [({}, "/"), ({"root_path": "/sub"}, "/sub/"), ({"root_path": "/app/sub", "app_root_path": "/app"}, "/app/"), ({"root_path": "/m", "app_root_path": ""}, "/"), ({"root_path": "/sub/"}, "/sub/")]
            extra, root = roots[n % len(roots)]
            expect(ctx, "base", f"the base_url of a connection {({**scope, **extra})}", "base", [{**scope, "type": "http", "method": "GET", **extra}], (f"{sch}://{host}" if host is not None else "") + root, "starlette.requests.HTTPConnection.base_url")
    scope = {"type": "http", "path": "/", "headers": []}
    for kind in ("url and scope", "url and components", "scope and components"):
        eng, outs = go(ctx, "refused", kind, scope)
        for k, s, v in outs:
            ctx.oblige("arguments")
            if k != "raise" or "AssertionError" not in str(value(s, v)):
                eng.report("arguments", Q, s, f"{kind} are accepted together")


def absolutes(ctx):
    bases = ["http://example.org", "https://example.org/", "https://example.org/sub/?q=1#f", "ws://u:p@h:1/a/b/", "wss://h", "http://[::1]:8/x//"]
    for base, protocol, host, wrap in product(bases, ("", "http", "websocket"), ("", "api.test:9"), (False, True)):
        u = urlsplit(base)
        scheme = {"": u.scheme, "http": "https", "websocket": "wss"}[protocol] if u.scheme in ("https", "wss") else {"": u.scheme, "http": "http", "websocket": "ws"}[protocol]
        want = f"{scheme}://{host or u.netloc}{u.path.rstrip('/')}/p/1"
        expect(ctx, "absolute", f"URLPath('/p/1', {protocol!r}, {host!r}).make_absolute_url({base!r})", "absolute", ["/p/1", protocol, host, base, wrap],
               (want, True, "/p/1", protocol, host), "starlette.datastructures.URLPath.make_absolute_url")


def secrets(ctx):
    q = "starlette.datastructures.Secret"
    eng, outs = go(ctx, "secret_shown", S("hidden"))
    for k, s, v in outs:
        ctx.oblige("secret")
        if k != "ok" or mentions(v, S("hidden")):
            eng.report("secret", q, s, f"the repr of a secret: {k} {show(v)[:80]}")
    for x in ("", "abc", "'\""):
        expect(ctx, "secret", f"str(Secret({x!r}))", "secret_text", [x], (x, x, x, bool(x)), q)
