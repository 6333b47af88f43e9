"""Path analysis of Route.matches / WebSocketRoute.matches / handle / BaseRoute.__call__ and decision of the pattern languages.

Routes are built from representative path templates (every convertor, several parameters, literals with regular-expression
characters, a convertor the client registers); compile_path is folded to the pattern that the route uses, and the language
that pattern accepts - together with what each parameter captures - is compared with the language of the template by an
equivalence procedure on the two regular expressions (a shortest distinguishing path is reported).  matches() is then
interpreted over an unknown request path, method and outer path_params.
"""
import re

from .. import relang
from ..mw import *
from .c02 import entry
from .c16 import header_of
from .common import *

R = "starlette.routing."
CLIENT10 = '''
from starlette.routing import Route, WebSocketRoute
from starlette.convertors import Convertor, register_url_convertor

class Odd(Convertor):
    regex = "[13579]+x?"
    def convert(self, value):
        return conv_odd(value)
    def to_string(self, value):
        return str_odd(value)

async def ep(request):
    return None

class Asgi:
    async def __call__(self, scope, receive, send):
        await asgi_called(scope, receive, send)

asgi = Asgi()

def http_route(path, methods):
    register_url_convertor("odd", Odd())
    return Route(path, ep, methods=methods)

def http_asgi(path, methods):
    return Route(path, asgi, methods=methods)

def ws_route(path):
    register_url_convertor("odd", Odd())
    return WebSocketRoute(path, ep)

def ws_asgi(path):
    return WebSocketRoute(path, asgi)
'''
TEMPLATES = ["/", "/users", "/users/", "/users/{id:int}", "/{name}", "/a.b+c/{x}/(end)", "/files/{p:path}", "/f/{v:float}/{w:odd}", "/u/{id:uuid}/x",
             "/{a}-{b:int}.{c:str}", "/x/{rest:path}/edit", "/{id:int}/{n:path}"]
LANGS = {"str": ["[^/]+"], "path": [".*", "(?s:.*)"], "int": ["[0-9]+"], "float": [r"[0-9]+(?:\.[0-9]+)?"],
         "uuid": ["[0-9a-fA-F]{8}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{12}"], "odd": ["[13579]+x?"]}
PART = re.compile(r"\{([a-zA-Z_]\w*)(?::(\w+))?\}")


def params(template):
    return {m.group(1): m.group(2) or "str" for m in PART.finditer(template)}


def spec_langs(template):
    outs = [""]
    i = 0
    for m in PART.finditer(template):
        lit = re.escape(template[i:m.start()])
        outs = [o + lit + f"(?P<{m.group(1)}>{x})" for o in outs for x in LANGS[m.group(2) or "str"]]
        i = m.end()
    return [o + re.escape(template[i:]) for o in outs]


_cache = {}


def language(template, pattern, flags, how, specs=None):
    """None or a text describing a string on which the pattern and the template disagree"""
    key = (template, pattern, flags, how)
    if key not in _cache:
        res = None
        for sp_ in specs or spec_langs(template):
            letters = set(template)
            d = relang.difference(relang.Lang(pattern, flags, how, letters).node, relang.Lang(sp_, 0, "fullmatch", letters).node)
            if d is None:
                res = None
                break
            w, ina, inb, tagged = d
            res = f"{w!r} is {'accepted' if ina else 'rejected'} by {pattern!r}" if ina != bool(re.compile(sp_, 0).fullmatch(w)) else f"{w!r} gives other parameters in {pattern!r}"
        _cache[key] = res
    return _cache[key]


def decisions(st, subject):
    """regular-expression tests made on this path: [(pattern, flags, how, term, outcome)], and tests on other subjects"""
    from ..rex import pat
    mine, other = [], []
    for t, f in st.facts.items():
        if is_t(t, "m") and t.a[1] in ("match", "fullmatch", "search") and len(t.a) == 4:
            p = pat(t.a[2])
            if p is None:
                continue
            out = True if f.tr is True else False if f.tr is False or f.eq is NONE else None
            if t.a[3] is subject:
                mine.append((p.pattern, p.flags & ~re.U, t.a[1], t, out))
            elif mentions(t.a[3], subject):
                other.append(t)
    return mine, other


def group(eng, s, m, name):
    return T("m", "group", m, C(name))


def converted(kind, g):
    return {"str": [g], "path": [g, T("str", g)], "int": [T("call", "builtins.int", g)], "float": [T("call", "builtins.float", g)],
            "uuid": [T("call", "uuid.UUID", g)], "odd": [T("conv_odd", g)]}[kind]


class Env10(MwEnv):
    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "conv_odd":
            return ok(st, T("conv_odd", *args))
        if name == "asgi_called":
            return ok(st, aw("asgi", *args))
        return super().on_call(eng, st, name, args, kwargs, node)

    def aw_asgi(self, eng, st, args, node):
        self.ev(st, "asgi", tuple(args), snap(eng, st, args[0]))
        s2 = st.fork()
        self.ev(s2, "raised")
        return [("ok", st, NONE), ("raise", s2, T("exc", "builtins.KeyError", "asgi"))]


def run(ctx):
    ctx.rule("language", "a route accepts exactly the paths of its template, and each parameter captures what its convertor describes")
    ctx.rule("subject", "the pattern is applied to the request's path")
    ctx.rule("match", "matches() answers NONE exactly for other connection types and paths outside the template")
    ctx.rule("params", "path_params of the child scope: the outer parameters, overridden by the route's own, converted by their convertors")
    ctx.rule("endpoint", "the child scope names the route's endpoint")
    ctx.rule("pure", "matching changes neither the scope nor the outer path_params")
    ctx.rule("methods", "FULL when the method is allowed (GET implies HEAD, any letter case in the declaration, none declared: all), PARTIAL otherwise")
    ctx.rule("not-allowed", "a disallowed method gets 405 with exactly the allowed methods in Allow (raised inside an application), and the endpoint is not called")
    ctx.rule("handle", "handle() calls the route's application once with the request's scope, receive and send")
    ctx.rule("standalone", "a route used as an application dispatches a match with the child scope merged, else 404 or websocket close")
    ctx.rule("rejected", "templates with an unknown convertor, a repeated parameter or no leading slash are refused when the route is made")
    ctx.client(CLIENT10)
    env = Env10()
    eng = ctx.engine(env)
    for t in TEMPLATES:
        for kind in ("http", "websocket"):
            for outer in (False, True):
                matching(ctx, eng, kind, t, outer)
    for decl, allowed in ((["post"], {"POST"}), (["Get", "PUT"], {"GET", "HEAD", "PUT"}), (None, None)):
        method_rules(ctx, eng, decl, allowed)
    for kind in ("http", "websocket"):
        for c in ("http", "websocket"):
            standalone(ctx, eng, kind, c)
    for cls in ("Route", "WebSocketRoute"):
        for bad in ("/{a:nope}", "/{a}/{a}", "users", "/{a:int}/x/{a}"):
            st = eng.start_state()
            rs = eng.run_call(st, Cls(ctx.p.cls(R + cls)), [C(bad), eng.force(st, eng.p.lookup_global(eng.p.client, "ep"))], {})
            ctx.oblige("rejected")
            if any(k == "ok" for k, s, v in rs):
                eng.report("rejected", R + cls, rs[0][1], f"{cls}({bad!r}) is accepted")
    ctx.need("matched", 40)
    ctx.need("unmatched", 40)
    ctx.need("405", 4)
    ctx.assume("which root_path part of the request path is stripped is analysed in C11; here there is none")
    ctx.assume("int() / float() / uuid.UUID() convert what the documented pattern accepts")


def matching(ctx, eng, kind, template, outer):
    path = S("path")
    st0 = eng.start_state()
    for st, route in entry(eng, st0, "http_route" if kind == "http" else "ws_route", [C(template), NONE] if kind == "http" else [C(template)]):
        for typ in ("http", "websocket"):
            s0 = st.fork()
            extra = {"path": path}
            names = params(template)
            od = {}
            if outer:
                od = {C("tenant"): S("tenant"), C(next(iter(names), "other")): S("shadowed")}
                extra["path_params"] = eng.new_dict(s0, None, dict(od))
            else:
                s0.facts[T("in", C("path_params"), SCOPE)] = Fact(tr=False)
            s0.facts[T("in", C("root_path"), SCOPE)] = Fact(tr=False)
            scope = new_scope(eng, s0, typ, **extra)
            before = snap(eng, s0, scope)
            label = f"{kind} route {template!r}, {typ} connection: "
            q = R + ("Route" if kind == "http" else "WebSocketRoute") + ".matches"
            fn = eng.getattr(s0, route, "matches", None)[0][2]
            for k, s, v in eng.run_call(s0, fn, [scope]):
                ctx.oblige("path")
                rep = lambda rule, text: eng.report(rule, q, s, label + text)
                if k == "raise":
                    rep("match", "raises " + show(v))
                    continue
                res, child = v.a
                name = enum_name(res)
                mine, other = decisions(s, path)
                for m in other:
                    rep("subject", f"the pattern is applied to {show(m.a[3])}")
                for p, fl, how, m, out in mine:
                    ctx.oblige("language")
                    text = language(template, p, fl, how)
                    if text:
                        eng.report("language", R + "compile_path", s, f"route {template!r}: path {text}")
                f = s.facts.get(path)
                const = f.eq if f is not None and f.eq is not None and is_c(f.eq) else None
                if const is not None and not names and not mine:
                    hit = const is C(template)
                elif mine:
                    hit = all(m[4] is True for m in mine)
                    if any(m[4] is None for m in mine):
                        rep("match", "answers without having looked at whether the pattern matches")
                        continue
                elif f is not None and C(template) in f.ne:
                    hit = False
                else:
                    hit = None
                want = typ == kind and hit
                if typ == kind and hit is None:
                    rep("match", f"answers {name} without testing the path")
                    continue
                if (name != "NONE") != bool(want):
                    rep("match", f"answers {name} for a path {'inside' if hit else 'outside'} the template")
                    continue
                if snap(eng, s, scope) is not before and snap(eng, s, scope) != before:
                    rep("pure", "the scope is changed while matching")
                if outer and dict(s.heap[extra["path_params"]].d) != od:
                    rep("pure", "the outer path_params dictionary is changed while matching")
                if name == "NONE":
                    ctx.oblige("unmatched")
                    continue
                ctx.oblige("matched")
                sn = snap(eng, s, child)
                if sfield(sn, "endpoint") is not eng.getattr(s, route, "endpoint", None)[0][2]:
                    rep("endpoint", f"endpoint is {show(sfield(sn, 'endpoint') or NONE)}")
                pp = raw_field(eng, s, child, "path_params")
                if pp is None or pp.tag != "ref" or s.heap[pp].kind != "dict":
                    rep("params", "no path_params dictionary")
                    continue
                if outer and pp is extra["path_params"]:
                    rep("pure", "the child scope shares the outer path_params dictionary")
                got = {kk: vv for kk, vv in s.heap[pp].d.items() if vv is not ABSENT}
                want = {kk: [vv] for kk, vv in od.items()}
                for n, conv in names.items():
                    want[C(n)] = [x for m in mine for x in converted(conv, group(eng, s, m[3], n))]
                if s.heap[pp].base is not None or set(got) != set(want):
                    rep("params", f"parameters are {sorted(show(x) for x in got)}, expected {sorted(show(x) for x in want)}")
                else:
                    for n in want:
                        if got[n] not in want[n] and eng.known(s, got[n]) not in [eng.known(s, w) for w in want[n]]:
                            rep("params", f"parameter {show(n)} is {show(got[n])}")
                if kind == "http":
                    check_method(ctx, eng, s, name, {"GET", "HEAD"}, rep)
                elif name != "FULL":
                    rep("methods", f"a websocket route answers {name}")


def raw_field(eng, s, d, key):
    if d.tag != "ref":
        return None
    return s.heap[d].d.get(C(key))


def enum_name(v):
    return v.a[1] if v.tag == "enum" else show(v)


def method_of(eng, s, allowed):
    """True/False/None: is the request's method in the set"""
    t = T("item", SCOPE, C("method"))
    rs = [eng.eq_truth(s, t, C(m)) for m in sorted(allowed)]
    return True if True in rs else None if None in rs else False


def check_method(ctx, eng, s, name, allowed, rep):
    inside = True if allowed is None else method_of(eng, s, allowed)
    ctx.oblige("methods")
    if inside is None:
        rep("methods", f"answers {name} without knowing whether the method is one of {sorted(allowed)}")
    elif (name == "FULL") != inside:
        rep("methods", f"answers {name} for a method that is {'allowed' if inside else 'not allowed'}")


def method_rules(ctx, eng, decl, allowed):
    for inapp in (False, True):
        st0 = eng.start_state()
        arg = eng.new_list(st0, None, [C(x) for x in decl]) if decl else NONE
        for st, route in entry(eng, st0, "http_asgi", [C("/x"), arg]):
            extra = {"path": S("path")}
            if inapp:
                extra["app"] = S("application")
            else:
                st.facts[T("in", C("app"), SCOPE)] = Fact(tr=False)
            st.facts[T("in", C("root_path"), SCOPE)] = Fact(tr=False)
            scope = new_scope(eng, st, "http", **extra)
            fn = eng.getattr(st, route, "matches", None)[0][2]
            for k, s, v in eng.run_call(st.fork(), fn, [scope]):
                rep = lambda rule, text: eng.report(rule, R + "Route.matches", s, f"methods={decl}: " + text)
                if k == "ok" and enum_name(v.a[0]) != "NONE":
                    check_method(ctx, eng, s, enum_name(v.a[0]), allowed, rep)
            fn = eng.getattr(st, route, "handle", None)[0][2]
            for k, s, v in eng.run_call(st, fn, [scope, RECEIVE, SEND]):
                rep = lambda rule, text: eng.report(rule, R + "Route.handle", s, f"methods={decl}: " + text)
                evs = s.mon.get("ev", ())
                calls = [e for e in evs if e[0] == "asgi"]
                fw = [e[1] for e in evs if e[0] == "fwd"]
                inside = True if allowed is None else method_of(eng, s, allowed)
                if inside is None:
                    rep("not-allowed", "the outcome does not depend on the method")
                elif inside:
                    ctx.oblige("handled")
                    called(evs, k, v, scope, lambda text: rep("handle", text))
                else:
                    ctx.oblige("405")
                    if calls:
                        rep("not-allowed", "the endpoint is called with a method that is not allowed")
                        continue
                    if inapp:
                        exc = s.heap[v] if k == "raise" and v.tag == "ref" else None
                        if exc is None or getattr(exc.cls, "qual", None) != "starlette.exceptions.HTTPException" or exc.d.get("status_code") is not C(405) or fw:
                            rep("not-allowed", f"inside an application: {k} {show(v)}")
                            continue
                        h = exc.d.get("headers")
                        allow = next((vv for kk, vv in s.heap[h].d.items() if str(cval(kk)).lower() == "allow"), None) if h is not None and h.tag == "ref" else None
                    else:
                        if k == "raise" or len(starts(s)) != 1 or sfield(starts(s)[0], "status") is not C(405):
                            rep("not-allowed", f"answered {[show(sfield(m, 'status')) for m in starts(s)]}, {k}")
                            continue
                        allow = header_of(starts(s)[0], b"allow")
                    names = allow_names(eng, s, allow)
                    if names != allowed:
                        rep("not-allowed", f"Allow is {show(allow) if allow is not None else None}, expected {sorted(allowed)}")


def allow_names(eng, s, v):
    if v is None:
        return None
    if is_t(v, "m") and v.a[1] == "encode":
        v = v.a[2]
    v = eng.known(s, v)
    if is_c(v):
        x = cval(v)
        x = x.decode() if isinstance(x, bytes) else x
        return {y.strip() for y in x.split(",")}
    if is_t(v, "joined") or is_t(v, "m") and v.a[1] == "join":
        cs = [t for t in subterms(v) if is_c(t) and isinstance(cval(t), str) and cval(t).strip(", ")]
        return {cval(c) for c in cs}
    return None


def called(evs, k, v, scope, bad):
    calls = [e for e in evs if e[0] == "asgi"]
    if len(calls) != 1 or [e for e in evs if e[0] == "fwd"]:
        bad(f"the route's application is called {len(calls)} times")
        return
    if calls[0][1] != (scope, RECEIVE, SEND):
        bad("the route's application is not called with the request's scope, receive and send")
    raised = any(e[0] == "raised" for e in evs)
    if raised != (k == "raise") or raised and v is not T("exc", "builtins.KeyError", "asgi"):
        bad(f"ends as {k} {show(v)}")


def standalone(ctx, eng, kind, typ):
    st0 = eng.start_state()
    for st, route in entry(eng, st0, "http_asgi" if kind == "http" else "ws_asgi", [C("/x/{id:int}"), NONE] if kind == "http" else [C("/x/{id:int}")]):
        path = S("path")
        st.facts[T("in", C("root_path"), SCOPE)] = Fact(tr=False)
        st.facts[T("in", C("path_params"), SCOPE)] = Fact(tr=False)
        scope = new_scope(eng, st, typ, path=path)
        for k, s, v in eng.run_call(st, route, [scope, RECEIVE, SEND]):
            rep = lambda text: eng.report("standalone", R + "BaseRoute.__call__", s, f"{kind} route, {typ} connection: " + text)
            evs = s.mon.get("ev", ())
            calls = [e for e in evs if e[0] == "asgi"]
            fw = [e[1] for e in evs if e[0] == "fwd"]
            ms, _ = decisions(s, path)
            hit = kind == typ and bool(ms) and all(m[4] for m in ms)
            ctx.oblige("standalone")
            if hit:
                called(evs, k, v, scope, rep)
                for e in calls[:1]:
                    if not any(x is C("endpoint") for x, _ in e[2].a[0]):
                        rep("the child scope is not merged before the application is called")
            elif calls:
                rep("the application is called for a connection the route does not match")
            elif typ == "websocket":
                if k == "raise" or [stype(m) for m in fw] != ["websocket.close"]:
                    rep(f"an unmatched websocket gets {[stype(m) for m in fw]}, {k}")
            elif k == "raise" or len(starts(s)) != 1 or sfield(starts(s)[0], "status") is not C(404):
                rep(f"an unmatched request is answered {[show(sfield(m, 'status')) for m in starts(s)]}, {k}")
