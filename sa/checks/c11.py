"""Path analysis of Mount and Host: which requests they take, and the scope they hand on.

Mounts and hosts are built from representative templates; the pattern they use is compared with the template's language by the
equivalence procedure of C10.  matches() and nested routers are interpreted over an unknown request path below different
root_path prefixes (absent, constant, unknown, inherited from an outer mount, only a textual prefix of the path); the path is
tracked as a sequence of constant and unknown pieces, so that root_path + remaining path = path is decided for every path.
"""
from ..mw import *
from .c02 import entry
from .c10 import *
from .c10 import R, called, converted, decisions, enum_name, group, language, params, raw_field, spec_langs
from .common import *
from .. import strs

CLIENT11 = '''
from starlette.routing import Route, WebSocketRoute, Mount, Host, Router, BaseRoute, Match
from starlette.convertors import Convertor, register_url_convertor

class Odd(Convertor):
    regex = "[13579]+x?"
    def convert(self, value):
        return conv_odd(value)
    def to_string(self, value):
        return str_odd(value)

class Asgi:
    async def __call__(self, scope, receive, send):
        await asgi_called(scope, receive, send)

inner = Asgi()

def mount(path):
    register_url_convertor("odd", Odd())
    return Mount(path, app=inner)

def host(pattern):
    register_url_convertor("odd", Odd())
    return Host(pattern, app=inner)

def rest_route():
    return Route("/{p:path}", inner)

def rest_ws():
    return WebSocketRoute("/{p:path}", inner)

def nested():
    leaf = Router(routes=[Route("/x/{id:int}", inner), WebSocketRoute("/x/{id:int}", inner)], redirect_slashes=False)
    return Router(routes=[Mount("/a", app=Router(routes=[Mount("/{t}/b", app=leaf)], redirect_slashes=False))], redirect_slashes=False)

def hosted():
    return Router(routes=[Host("{sub}.example.org", app=Router(routes=[Route("/{sub}/{id:int}", inner), WebSocketRoute("/{sub}/{id:int}", inner)], redirect_slashes=False))], redirect_slashes=False)
'''
MOUNTS = ["/m", "", "/m/", "/{tenant}/m", "/a.b", "/v{id:int}", "/{w:odd}"]
HOSTS = ["example.org", "{sub}.example.org", "{a}.{b:int}.example.org", "api.example.org:8000", "{w:odd}"]


def roots(eng, st, extra, how):
    """(root_path text pieces, request path) for a way the server presents the path"""
    X = S("path")
    if how == "none":
        st.facts[T("in", C("root_path"), SCOPE)] = Fact(tr=False)
        extra["path"] = X
        return [], X
    if how == "empty":
        extra["root_path"] = C("")
        extra["path"] = X
        return [], X
    if how == "const":
        extra["root_path"] = C("/r/s")
        p = T("concat", C("/r/s/"), S("rest"))
    elif how == "unknown":
        extra["root_path"] = S("root")
        st.facts[S("root")] = Fact(tr=True, isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
        p = T("concat", S("root"), C("/"), S("rest"))
    elif how == "prefix":          # the path only starts with the same letters
        extra["root_path"] = C("/r/s")
        p = T("concat", C("/r/sx/"), S("rest"))
    elif how == "foreign":         # a server that does not put root_path in front of the path
        extra["root_path"] = C("/r/s")
        p = T("concat", C("/q/"), S("rest"))
    elif how == "equal":
        extra["root_path"] = C("/r/s")
        p = C("/r/s")
    extra["path"] = p
    return [], p


ROUTE_PATH = {"none": None, "empty": None, "const": ["/", "rest"], "unknown": ["/", "rest"], "prefix": ["/r/sx/", "rest"], "foreign": ["/q/", "rest"], "equal": []}


def piece_list(how):
    r = ROUTE_PATH[how]
    return [S("path")] if r is None else [S(x) if x in ("rest",) else C(x) for x in r]


def run(ctx):
    ctx.rule("route-path", "routes below a root_path match the path after it; a root_path that is not a segment prefix of the path is not stripped")
    ctx.rule("language", "a mount takes exactly the paths template + '/' + anything, a host exactly the hosts of its template")
    ctx.rule("subject", "a mount looks at the route path, a host at the Host header up to its port")
    ctx.rule("match", "FULL for http and websocket connections it takes, NONE otherwise")
    ctx.rule("root-path", "the child's root_path is the outer root_path plus the matched part of the path, the path itself is untouched")
    ctx.rule("app-root-path", "app_root_path is that of the outermost scope")
    ctx.rule("params", "path_params: the outer ones, overridden by the mount's own, converted, without the rest of the path")
    ctx.rule("pure", "matching changes neither the scope nor the outer path_params")
    ctx.rule("handle", "the mounted application is called once with the request's scope, receive and send")
    ctx.rule("nested", "through nested mounts and hosts an endpoint sees all parameters and the accumulated root_path")
    ctx.client(CLIENT11)
    env = Env10()
    eng = ctx.engine(env)
    for typ in ("http", "websocket"):
        for how in ROUTE_PATH:
            route_path(ctx, eng, typ, how)
    for t in MOUNTS:
        for typ in ("http", "websocket", "lifespan"):
            for how in ("none", "const", "unknown") if typ == "http" else ("none",):
                for outer in (False, True) if how == "none" else (False,):
                    mount(ctx, eng, t, typ, how, outer)
    for t in HOSTS:
        for typ in ("http", "websocket", "lifespan"):
            host(ctx, eng, t, typ, typ == "http")
    for typ in ("http", "websocket"):
        for how in ("none", "const", "unknown"):
            nested(ctx, eng, typ, how)
            hosted(ctx, eng, typ, how)
    for n in ("mounted", "hosted", "below root", "nested", "hosted route"):
        ctx.need(n, 4)
    ctx.assume("the regular expression library matches as documented (leftmost, greedy)")


def route_path(ctx, eng, typ, how):
    st0 = eng.start_state()
    for st, route in entry(eng, st0, "rest_route" if typ == "http" else "rest_ws", []):
        extra = {}
        roots(eng, st, extra, how)
        st.facts[T("in", C("path_params"), SCOPE)] = Fact(tr=False)
        scope = new_scope(eng, st, typ, **extra)
        want = piece_list(how)
        for k, s, v in eng.run_call(st, eng.getattr(st, route, "matches", None)[0][2], [scope]):
            rep = lambda text: eng.report("route-path", "starlette._utils.get_route_path", s, f"{typ}, path {show(extra['path'])}, root_path {show(extra.get('root_path', NONE))}: " + text)
            ctx.oblige("below root")
            if k == "raise":
                rep("raises " + show(v))
                continue
            name = enum_name(v.a[0])
            if name == "NONE":
                # acceptable only when the remaining path is known not to match "/" + anything
                if how in ("none", "empty", "const", "unknown", "foreign", "prefix"):
                    ms = [t for t, f in s.facts.items() if is_t(t, "m") and t.a[1] in ("match", "fullmatch", "search") and f.eq is NONE]
                    if not ms:
                        rep("no match although the path below the root is '/' + anything")
                    for m in ms:
                        if strs.pieces(eng, s, m.a[3]) != want and strs.merge(strs.pieces(eng, s, m.a[3])) != strs.merge(want):
                            rep(f"matched against {show(m.a[3])}")
                continue
            pp = raw_field(eng, s, v.a[1], "path_params")
            got = s.heap[pp].d.get(C("p")) if pp is not None else None
            full = None if got is None else strs.merge([C("/")] + strs.pieces(eng, s, got))
            if how in ("none", "empty"):
                good = full is not None and full == strs.merge(strs.pieces(eng, s, S("path")))
            else:
                good = full == strs.merge(want)
            if not good:
                rep(f"routed as {''.join(map(show, full or []))}")


def own(template):
    return params(template)


def check_params(eng, s, pp, od, own_names, mine, rep):
    if pp is None or pp.tag != "ref" or s.heap[pp].kind != "dict" or s.heap[pp].base is not None:
        rep("params", "no path_params dictionary")
        return
    got = {kk: vv for kk, vv in s.heap[pp].d.items() if vv is not ABSENT}
    want = {kk: [vv] for kk, vv in od.items()}
    for n, conv in own_names.items():
        gs = [group(eng, s, m[3], n) for m in mine]
        want[C(n)] = [x for g in gs for y in {g, eng.known(s, g)} for x in converted(conv, y)]
    if set(got) != set(want):
        rep("params", f"parameters are {sorted(show(x) for x in got)}, expected {sorted(show(x) for x in want)}")
        return
    for n in want:
        if got[n] not in want[n] and eng.known(s, got[n]) not in [eng.known(s, w) for w in want[n]]:
            rep("params", f"parameter {show(n)} is {show(got[n])}")


def mount(ctx, eng, template, typ, how, outer):
    st0 = eng.start_state()
    for st, route in entry(eng, st0, "mount", [C(template)]):
        for app_root in (False, True):
            s0 = st.fork()
            extra = {}
            roots(eng, s0, extra, how)
            if app_root:
                extra["app_root_path"] = S("app_root")
            else:
                s0.facts[T("in", C("app_root_path"), SCOPE)] = Fact(tr=False)
            names = own(template)
            od = {}
            if outer:
                od = {C("outer"): S("outer"), C(next(iter(names), "other")): S("shadowed")}
                extra["path_params"] = eng.new_dict(s0, None, dict(od))
            else:
                s0.facts[T("in", C("path_params"), SCOPE)] = Fact(tr=False)
            scope = new_scope(eng, s0, typ, **extra)
            before = snap(eng, s0, scope)
            label = f"Mount({template!r}), {typ}, root_path {show(extra.get('root_path', NONE))}: "
            for k, s, v in eng.run_call(s0, eng.getattr(s0, route, "matches", None)[0][2], [scope]):
                ctx.oblige("path")
                rep = lambda rule, text: eng.report(rule, R + "Mount.matches", s, label + text)
                if k == "raise":
                    rep("match", "raises " + show(v))
                    continue
                name = enum_name(v.a[0])
                ms = [t for t, f in s.facts.items() if is_t(t, "m") and t.a[1] in ("match", "fullmatch", "search") and len(t.a) == 4]
                mine = []
                from ..rex import pat
                for t in ms:
                    p = pat(t.a[2])
                    if p is None:
                        continue
                    f = s.facts[t]
                    mine.append((p.pattern, p.flags & ~re.U, t.a[1], t, True if f.tr is True else False if f.eq is NONE or f.tr is False else None))
                    text = language(template.rstrip("/") + "/{path:path}", p.pattern, p.flags & ~re.U, t.a[1])
                    ctx.oblige("language")
                    if text:
                        rep("language", text)
                    subj = strs.merge(strs.pieces(eng, s, t.a[3]))
                    want = strs.merge([x for y in piece_list(how) for x in strs.pieces(eng, s, y)])
                    if subj != want:
                        rep("subject", f"the pattern is applied to {show(t.a[3])}")
                taken = typ in ("http", "websocket") and bool(mine) and all(m[4] is True for m in mine)
                if typ in ("http", "websocket") and not mine:
                    # decided by constants alone is fine only for a mismatch of the constant prefix
                    if name != "NONE" or how == "none":
                        rep("match", f"answers {name} without testing the path")
                    continue
                if (name == "FULL") != taken or name == "PARTIAL":
                    rep("match", f"answers {name} for a path {'inside' if taken else 'outside'} the mount")
                    continue
                if snap(eng, s, scope) is not before:
                    rep("pure", "the scope is changed while matching")
                if outer and dict(s.heap[extra["path_params"]].d) != od:
                    rep("pure", "the outer path_params dictionary is changed while matching")
                if name == "NONE":
                    ctx.oblige("unmatched")
                    continue
                ctx.oblige("mounted")
                child = v.a[1]
                fields = {cval(a): b for a, b in s.heap[child].d.items() if is_c(a)}
                if fields.get("path", extra["path"]) is not extra["path"]:
                    rep("root-path", f"the path is replaced by {show(fields['path'])}")
                # root_path + "/" + rest of the path == the whole path
                g = T("m", "group", mine[0][3], C("path"))
                rp = fields.get("root_path")
                want_child(eng, s, extra, how, template, mine[0][3], rp, rep)
                ar = fields.get("app_root_path", extra.get("app_root_path"))
                want = S("app_root") if app_root else extra.get("root_path", C(""))
                if ar is None or eng.known(s, ar) is not eng.known(s, want):
                    rep("app-root-path", f"app_root_path is {show(ar) if ar is not None else None}")
                if fields.get("endpoint") is not eng.getattr(s, route, "app", None)[0][2]:
                    rep("match", "the endpoint is not the mounted application")
                pp = fields.get("path_params")
                if outer and pp is extra["path_params"]:
                    rep("pure", "the child scope shares the outer path_params dictionary")
                check_params(eng, s, pp, od, names, mine, rep)
        if typ != "lifespan" and how == "none" and not outer:
            scope = new_scope(eng, st, typ, path=S("path"))
            for k, s, v in eng.run_call(st, eng.getattr(st, route, "handle", None)[0][2], [scope, RECEIVE, SEND]):
                ctx.oblige("handled")
                called(s.mon.get("ev", ()), k, v, scope, lambda text: eng.report("handle", R + "Mount.handle", s, text))


def template_pieces(template, m):
    out = []
    i = 0
    for x in PART.finditer(template):
        out += [C(template[i:x.start()]), T("m", "group", m, C(x.group(1)))]
        i = x.end()
    return out + [C(template[i:])]


def want_child(eng, s, extra, how, template, m, rp, rep):
    root = extra.get("root_path", C(""))
    want = strs.pieces(eng, s, root)
    for x in template_pieces(template.rstrip("/"), m):
        want += strs.pieces(eng, s, x)
    got = strs.merge(strs.pieces(eng, s, rp)) if rp is not None else None
    if got != strs.merge(want):
        rep("root-path", f"root_path is {''.join(map(show, got)) if got is not None else None}, expected {''.join(map(show, strs.merge(want)))}")


def host(ctx, eng, template, typ, outer):
    st0 = eng.start_state()
    for st, route in entry(eng, st0, "host", [C(template)]):
        names = own(template)
        extra = {"path": S("path")}
        od = {}
        if outer:
            od = {C("outer"): S("outer"), C(next(iter(names), "other")): S("shadowed")}
            extra["path_params"] = eng.new_dict(st, None, dict(od))
        else:
            st.facts[T("in", C("path_params"), SCOPE)] = Fact(tr=False)
        s0 = st.fork()
        scope = new_scope(eng, s0, typ, **extra)
        before = snap(eng, s0, scope)
        for k, s, v in eng.run_call(s0, eng.getattr(s0, route, "matches", None)[0][2], [scope]):
            ctx.oblige("path")
            rep = lambda rule, text: eng.report(rule, R + "Host.matches", s, f"Host({template!r}), {typ}: " + text)
            if k == "raise":
                rep("match", "raises " + show(v))
                continue
            name = enum_name(v.a[0])
            mine = []
            from ..rex import pat
            for t, f in s.facts.items():
                if not (is_t(t, "m") and t.a[1] in ("match", "fullmatch", "search") and len(t.a) == 4 and pat(t.a[2])):
                    continue
                p = pat(t.a[2])
                mine.append((p.pattern, p.flags & ~re.U, t.a[1], t, True if f.tr is True else False if f.eq is NONE or f.tr is False else None))
                ctx.oblige("language")
                text = language(template.split(":")[0] if template.endswith(":8000") else template, p.pattern, p.flags & ~re.U, t.a[1])
                if text:
                    rep("language", text)
                subject_ok(eng, s, t.a[3], rep)
            # the header is absent: decided by constants
            if typ == "lifespan":
                if name != "NONE":
                    rep("match", f"answers {name} for a lifespan scope")
                continue
            taken = bool(mine) and all(m[4] is True for m in mine)
            if (name == "FULL") != taken or name == "PARTIAL":
                rep("match", f"answers {name} for a host {'inside' if taken else 'outside'} the template")
                continue
            if without_headers(snap(eng, s, scope)) != without_headers(before) or outer and dict(s.heap[extra["path_params"]].d) != od:
                rep("pure", "the scope is changed while matching")
            if name == "NONE":
                continue
            ctx.oblige("hosted")
            fields = {cval(a): b for a, b in s.heap[v.a[1]].d.items() if is_c(a)}
            for key in ("path", "root_path", "app_root_path"):
                if key in fields and fields[key] is not extra.get(key):
                    rep("root-path", f"{key} is replaced by {show(fields[key])}")
            if fields.get("endpoint") is not eng.getattr(s, route, "app", None)[0][2]:
                rep("match", "the endpoint is not the application of the host")
            if outer and fields.get("path_params") is extra["path_params"]:
                rep("pure", "the child scope shares the outer path_params dictionary")
            check_params(eng, s, fields.get("path_params"), od, names, mine, rep)
        if typ != "lifespan":
            scope = new_scope(eng, st, typ, path=S("path"))
            for k, s, v in eng.run_call(st, eng.getattr(st, route, "handle", None)[0][2], [scope, RECEIVE, SEND]):
                ctx.oblige("handled")
                called(s.mon.get("ev", ()), k, v, scope, lambda text: eng.report("handle", R + "Host.handle", s, text))


def without_headers(sn):
    """Headers(scope=...) stores the header list as a list; the headers themselves are C32"""
    return tuple((a, b) for a, b in sn.a[0] if a is not C("headers")), sn.a[1:]


def subject_ok(eng, s, x, rep):
    """the Host header up to the first ':'"""
    if x not in first_item_forms(T("hdr", T("item", SCOPE, C("headers")), C("host")), ":"):
        rep("subject", f"the pattern is applied to {show(x)}")


def endpoint_scope(ctx, eng, rule, label, typ, how, router, want_root, want_params, st):
    extra = {}
    roots(eng, st, extra, how)
    for key in ("path_params", "app_root_path", "router", "app"):
        st.facts[T("in", C(key), SCOPE)] = Fact(tr=False)
    scope = new_scope(eng, st, typ, **extra)
    for k, s, v in eng.run_call(st, router, [scope, RECEIVE, SEND]):
        rep = lambda text: eng.report(rule, R + "Router.app", s, f"{label}, {typ}, root_path {show(extra.get('root_path', NONE))}: " + text)
        calls = [e for e in s.mon.get("ev", ()) if e[0] == "asgi"]
        if len(calls) > 1:
            rep("the endpoint is called twice")
        for e in calls:
            if is_t(s.facts.get(T("item", SCOPE, C("method")), Fact()).eq or NONE, "none"):
                continue
            ctx.oblige(label)
            sn = e[2]
            f = {cval(a): b for a, b in sn.a[0] if is_c(a)}
            if f.get("path") is not extra["path"]:
                rep("the request's path is changed")
            want_root(s, extra, f, rep)
            pp = f.get("path_params")
            got = {cval(a): b for a, b in s.heap[pp].d.items() if b is not ABSENT} if pp is not None and pp.tag == "ref" else {}
            want_params(s, got, rep)


def nested(ctx, eng, typ, how):
    st0 = eng.start_state()
    for st, router in entry(eng, st0, "nested", []):
        def want_root(s, extra, f, rep):
            root = strs.pieces(eng, s, extra.get("root_path", C("")))
            pp = f.get("path_params")
            t = s.heap[pp].d.get(C("t"), NONE) if pp is not None and pp.tag == "ref" else NONE
            i = s.heap[pp].d.get(C("id"), NONE) if pp is not None and pp.tag == "ref" else NONE
            got = strs.merge(strs.pieces(eng, s, f.get("root_path", NONE)))
            if got != strs.merge(root + [C("/a/")] + strs.pieces(eng, s, t) + [C("/b")]):
                rep(f"root_path at the endpoint is {''.join(map(show, got))}")
            ar = f.get("app_root_path")
            if ar is None or strs.pieces(eng, s, ar) != strs.pieces(eng, s, extra.get("root_path", C(""))):
                rep(f"app_root_path at the endpoint is {show(ar) if ar is not None else None}")
            whole = strs.merge(strs.pieces(eng, s, extra["path"]))
            num = i.a[2] if is_t(i, "call") and i.a[1] == "builtins.int" else NONE
            if whole != strs.merge(root + [C("/a/")] + strs.pieces(eng, s, t) + [C("/b/x/")] + strs.pieces(eng, s, num)):
                rep(f"the endpoint is reached with path {''.join(map(show, whole))}")

        def want_params(s, got, rep):
            if set(got) != {"t", "id"} or not is_t(got.get("id", NONE), "call"):
                rep(f"path_params at the endpoint are {sorted(got)}")
        endpoint_scope(ctx, eng, "nested", "nested", typ, how, router, want_root, want_params, st)


def hosted(ctx, eng, typ, how):
    st0 = eng.start_state()
    for st, router in entry(eng, st0, "hosted", []):
        def want_root(s, extra, f, rep):
            rp = f.get("root_path", extra.get("root_path"))
            if rp is not extra.get("root_path"):
                rep("the host changes root_path")
            pp = f.get("path_params")
            sub = s.heap[pp].d.get(C("sub"), NONE) if pp is not None and pp.tag == "ref" else NONE
            num = s.heap[pp].d.get(C("id"), NONE) if pp is not None and pp.tag == "ref" else NONE
            num = num.a[2] if is_t(num, "call") else NONE
            root = strs.pieces(eng, s, extra.get("root_path", C("")))
            whole = strs.merge(strs.pieces(eng, s, extra["path"]))
            if whole != strs.merge(root + [C("/")] + strs.pieces(eng, s, sub) + [C("/")] + strs.pieces(eng, s, num)):
                rep(f"the endpoint is reached with path {''.join(map(show, whole))} (parameter sub={show(sub)})")

        def want_params(s, got, rep):
            if set(got) != {"sub", "id"}:
                rep(f"path_params at the endpoint are {sorted(got)}")
        endpoint_scope(ctx, eng, "nested", "hosted route", typ, how, router, want_root, want_params, st)
