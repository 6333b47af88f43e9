"""Path analysis of Router dispatch over arbitrary route objects.

A client program defines a BaseRoute whose `matches` answers NONE, PARTIAL or FULL without constraint, once for the request and
independently for every other scope it is asked about; `handle` returns or raises.  Routers with up to three such routes, with
and without redirect_slashes, a custom default, an enclosing application and an already present "router" are interpreted over
a symbolic request; the order of matches/handle calls and the contents of the scope at each of them decide the rules.
"""
from ..mw import *
from .c02 import entry
from .c16 import header_of
from .common import *

Q = "starlette.routing.Router"
CLIENT9 = '''
from starlette.routing import BaseRoute, Match, Router
from starlette.applications import Starlette

class R(BaseRoute):
    def __init__(self, n):
        self.n = n
    def matches(self, scope):
        kind = r_matches(self.n, scope)
        if kind == "full":
            return Match.FULL, {"endpoint": "ep" + self.n, "path_params": {self.n: 1}, "only" + self.n: True}
        if kind == "partial":
            return Match.PARTIAL, {"endpoint": "ep" + self.n, "path_params": {self.n: 1}, "only" + self.n: True}
        return Match.NONE, {}
    async def handle(self, scope, receive, send):
        await r_handle(self.n, scope, receive, send)

def build(n, redirect, custom):
    routes = [R("a"), R("b"), R("c")][:n]
    if custom:
        return Router(routes, redirect_slashes=redirect, default=dflt)
    return Router(routes=routes, redirect_slashes=redirect)

def build_plain(n):
    return Router(routes=[R("a"), R("b"), R("c")][:n])

def build_grown():
    router = Router()
    router.routes.append(R("a"))
    router.routes.append(R("b"))
    router.routes.insert(1, R("c"))
    return router
'''


class Env09(MwEnv):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "r_matches":
            n, scope = cval(args[0]), args[1]
            out = []
            first = scope is st.mon["scope"]
            for kind in ("none", "partial", "full"):
                s = st.fork()
                s.note(eng.loc(node), f"route {n} matches: {kind}" + ("" if first else " (other scope)"))
                self.ev(s, "match", n, kind, first, snap(eng, s, scope))
                out.append(("ok", s, C(kind)))
            return out
        if name == "r_handle":
            return ok(st, aw("handle", *args))
        if name == "dflt":
            return ok(st, aw("dflt", *args))
        return super().on_call(eng, st, name, args, kwargs, node)

    def aw_handle(self, eng, st, args, node):
        self.ev(st, "handle", cval(args[0]), args[1:], snap(eng, st, args[1]))
        s2 = st.fork()
        self.ev(s2, "raised")
        return [("ok", st, NONE), ("raise", s2, T("exc", "builtins.KeyError", "handle"))]

    def aw_dflt(self, eng, st, args, node):
        self.ev(st, "default", args, snap(eng, st, args[0]))
        return ok(st, NONE)


def run(ctx):
    ctx.rule("in-order", "routes are asked in order with the request's scope, up to the first full match")
    ctx.rule("full", "the first full match handles the request exactly once, with its own child scope merged in and nothing of other routes")
    ctx.rule("partial", "without a full match the first partial match handles it, likewise")
    ctx.rule("redirect", "without any match an http request is redirected exactly when redirect_slashes is set, the path is not '/', and some route matches the path with the slash toggled; status 307, same query")
    ctx.rule("default", "otherwise the default handles it: 404 (HTTPException inside an application), close for a websocket")
    ctx.rule("scope", "the request's scope keeps its path; 'router' is the outermost router")
    ctx.rule("exception", "what a route raises leaves the router")
    ctx.client(CLIENT9)
    for typ in ("http", "websocket"):
        for n, redirect, custom, inapp in ((3, True, True, False), (2, False, True, False), (2, True, False, True), (2, True, False, False), (0, True, False, False), (0, True, False, True), (1, True, True, True)):
            one(ctx, typ, ["a", "b", "c"][:n], ("build", [C(n), B(redirect), B(custom)]), redirect, custom, inapp)
    one(ctx, "http", ["a", "b"], ("build_plain", [C(2)]), True, False, False)
    one(ctx, "http", ["a", "c", "b"], ("build_grown", []), True, False, False)
    ctx.need("handled", 20)
    ctx.need("redirected", 5)
    ctx.need("defaulted", 8)
    ctx.assume("what routes match is analysed in C10/C11; here every combination of answers is considered")


def one(ctx, typ, names, how, redirect, custom, inapp):
    for present in (False, True) if len(names) == 1 else (False,):
        env = Env09(ctx)
        eng = ctx.engine(env)
        st0 = eng.start_state()
        st0.mon["scope"] = None
        st0.facts[S("dflt")] = Fact(tr=True, ne=frozenset([NONE]))
        for st, router in entry(eng, st0, how[0], how[1]):
            extra = {}
            if present:
                extra["router"] = S("outer_router")
            if inapp:
                extra["app"] = S("application")
            path = S("path")
            extra["path"] = path
            extra["scheme"] = C("http")
            scope = new_scope(eng, st, typ, **extra)
            for key, have in (("app", inapp), ("router", present), ("root_path", False)):
                if not have:
                    st.facts[T("in", C(key), SCOPE)] = Fact(tr=False)
            st.mon["scope"] = scope
            for k, s, v in eng.run_call(st, router, [scope, RECEIVE, SEND]):
                ctx.oblige("path")
                label = f"{typ}, {len(names)} routes, redirect_slashes={redirect}: "
                judge(ctx, eng, s, k, v, typ, names, redirect, custom, inapp, present, scope, router, path, lambda rule, text: eng.report(rule, Q, s, label + text))


def judge(ctx, eng, s, k, v, typ, names, redirect, custom, inapp, present, scope, router, path, rep):
    evs = s.mon.get("ev", ())
    first = [e for e in evs if e[0] == "match" and e[3]]
    other = [e for e in evs if e[0] == "match" and not e[3]]
    handles = [e for e in evs if e[0] == "handle"]
    dflt = [e for e in evs if e[0] == "default"]
    fw = [e[1] for e in evs if e[0] == "fwd"]
    asked = [e[1] for e in first]
    full = next((e[1] for e in first if e[2] == "full"), None)
    if asked != (names[:names.index(full) + 1] if full else names):
        rep("in-order", f"routes asked: {asked}" + (f" though {full} fully matches" if full else ""))
        return
    for e in first:
        keys = [cval(x) for x, _ in e[4].a[0] if is_c(x)]
        if any(str(x).startswith("only") or x in ("endpoint", "path_params") for x in keys):
            rep("scope", f"route {e[1]} is asked with another route's child scope")
    final = snap(eng, s, scope)
    if sfield(final, "path") is not path:
        rep("scope", "the request's path is changed")
    r = sfield(final, "router")
    if r is not (S("outer_router") if present else router):
        rep("scope", "scope['router'] is not the outermost router")
    chosen = full or next((e[1] for e in first if e[2] == "partial"), None)
    if chosen:
        ctx.oblige("handled")
        rule = "full" if full else "partial"
        if len(handles) != 1 or handles[0][1] != chosen or dflt or fw or other:
            rep(rule, f"handled by {[e[1] for e in handles]}" + (" and the default" if dflt else "") + (" and a response of the router" if fw else ""))
            return
        if handles[0][2] != (scope, RECEIVE, SEND):
            rep(rule, "the route is not called with the request's scope, receive and send")
        sn = handles[0][3]
        keys = {cval(x): y for x, y in sn.a[0] if is_c(x)}
        if keys.get("endpoint") is not C("ep" + chosen) or keys.get("only" + chosen) is not TRUE:
            rep(rule, "the route's child scope is not merged in before it is called")
        if any(x.startswith("only") and x != "only" + chosen for x in keys):
            rep(rule, "another route's child scope is merged in")
        raised = any(e[0] == "raised" for e in evs)
        if raised != (k == "raise") or raised and v is not T("exc", "builtins.KeyError", "handle"):
            rep("exception", f"ends as {k} {show(v)}")
        return
    if handles:
        rep("default", f"route {handles[0][1]} handles a request it does not match")
        return
    leaked = [cval(x) for x, _ in final.a[0] if is_c(x) and (str(cval(x)).startswith("only") or cval(x) in ("endpoint", "path_params"))]
    if leaked:
        rep("scope", f"the scope contains {leaked[0]} though no route matched")
    may = typ == "http" and redirect
    root = eng.eq_truth(s, path, C("/"))
    hit = next((e for e in other if e[2] != "none"), None)
    if hit:
        if not may:
            rep("redirect", "redirected although redirects are off or the connection is a websocket")
            return
        ctx.oblige("redirected")
        if root is not False:
            rep("redirect", "redirected on a path that does not establish that the path is not '/'")
        new = sfield(hit[4], "path")
        ends = eng.truth(s, T("m", "endswith", path, C("/")))
        toggled(eng, s, path, new, ends, rep)
        if dflt or k == "raise" or len(starts(s)) != 1:
            rep("redirect", f"{len(starts(s))} responses, default {bool(dflt)}, {k}")
            return
        st_ = starts(s)[0]
        if sfield(st_, "status") is not C(307):
            rep("redirect", f"status {show(sfield(st_, 'status'))}")
        loc = header_of(st_, b"location")
        if loc is None or new is None or not contains(loc, new):
            rep("redirect", f"the location is {show(loc) if loc is not None else None}, not that of the toggled path")
        elif not mentions(loc, C("query_string")) and eng.truth(s, T("item", SCOPE, C("query_string"))) is not False:
            rep("redirect", "the query string is lost")
        return
    if names and may and root is not True and [e[1] for e in other] != names:
        rep("redirect", f"not found without asking every route for the toggled path (asked {[e[1] for e in other]})")
    for e in other[:1]:
        toggled(eng, s, path, sfield(e[4], "path"), eng.truth(s, T("m", "endswith", path, C("/"))), rep)
    ctx.oblige("defaulted")
    if custom:
        if len(dflt) != 1 or dflt[0][1] != (scope, RECEIVE, SEND) or fw or k == "raise":
            rep("default", "the default is not called exactly once with the request's scope, receive and send")
        return
    if typ == "websocket":
        if [stype(m) for m in fw] != ["websocket.close"] or k == "raise":
            rep("default", f"an unmatched websocket gets {[stype(m) for m in fw]}")
    elif inapp:
        code = None
        if k == "raise" and v.tag == "ref" and getattr(s.heap[v].cls, "qual", None) == "starlette.exceptions.HTTPException":
            code = s.heap[v].d.get("status_code")
        if code is not C(404) or fw:
            rep("default", f"an unmatched request inside an application ends as {k} {show(v)}")
    else:
        if k == "raise" or len(starts(s)) != 1 or sfield(starts(s)[0], "status") is not C(404):
            rep("default", f"an unmatched request is answered {[show(sfield(m, 'status')) for m in starts(s)]}")


def contains(loc, new):
    """new occurs in loc, possibly as consecutive parts of a larger concatenation."""
    want = [x for x in new.a if isinstance(x, V)] if is_t(new, "concat") else [new]
    parsed = [t for t in subterms(loc) if (is_t(t, "attr") or is_t(t, "item")) and any(is_t(x, "call") for x in t.a if isinstance(x, V))]
    if parsed:
        return False    # a component of a parsed URL, not the whole
    if mentions(loc, new):
        return True
    for t in subterms(loc):
        if is_t(t, "concat"):
            have = [x for x in t.a if isinstance(x, V)]
            for i in range(len(have) - len(want) + 1):
                if have[i:i + len(want) - 1] == want[:-1]:
                    x, w = have[i + len(want) - 1], want[-1]
                    if x is w or is_c(x) and is_c(w) and isinstance(cval(x), str) and isinstance(cval(w), str) and cval(x).startswith(cval(w)):
                        return True
    return False


def toggled(eng, s, path, new, ends, rep):
    if ends is True:
        good = new in (T("m", "rstrip", path, C("/")), T("m", "removesuffix", path, C("/")), T("slice", path, NONE, C(-1), NONE))
    elif ends is False:
        good = new is T("concat", path, C("/")) or new is T("concat", C(""), path, C("/"))
        good = good or is_t(new, "concat") and [x for x in new.a[1:] if x is not None and isinstance(x, V)][-2:] == [path, C("/")]
    else:
        good = False
    if not good:
        rep("redirect", f"asked for path {show(new)} " + ("without knowing whether the path ends with a slash" if ends is None else f"though endswith('/') is {ends}"))
