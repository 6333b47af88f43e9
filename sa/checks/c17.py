"""Path analysis of the HTTPS redirect middleware over every scheme / scope-type combination with a symbolic request.

For the insecure schemes (http, ws) no path may reach the application: each answers with exactly one temporary,
method-preserving redirect whose Location term is the request URL with the scheme replaced by its secure counterpart
(path and query of the request retained, an explicit default port dropped).  For every other scheme each path reaches the
application exactly once, untouched.
"""
from ..mw import *
from .common import *
from .c16 import header_of

Q = "starlette.middleware.httpsredirect.HTTPSRedirectMiddleware"
SECURE = {"http": "https", "ws": "wss"}


def run(ctx):
    ctx.rule("insecure-never-reaches-app", "no path with an insecure scheme calls the application")
    ctx.rule("redirect", "the answer is one 307/308 redirect")
    ctx.rule("location", "Location is the request URL with the secure scheme, keeping path and query; port 80/443 is dropped, any other port kept")
    ctx.rule("secure-passes", "a secure or unknown scheme reaches the application unchanged")
    for typ in ("http", "websocket"):
        for scheme in ("http", "ws", "https", "wss", "other"):
            one(ctx, typ, scheme)
    ctx.need("redirecting path", 8)
    ctx.need("passing path", 6)
    ctx.assume("the request has a Host header or the server address is known (otherwise there is no URL to redirect to)")


def one(ctx, typ, scheme):
    eng = ctx.engine(MwEnv(scripts=[()]))
    eng.coarse = True
    st0 = eng.start_state()
    for st, ref in build(eng, st0, Q, {"app": APP}):
        sv = S("scheme") if scheme == "other" else C(scheme)
        scope = new_scope(eng, st, typ, scheme=sv)
        if scheme == "other":
            st.facts[sv] = Fact(ne=frozenset(C(x) for x in ("http", "ws", "https", "wss")))
        st.facts[T("in", C("server"), SCOPE)] = Fact(tr=True)
        st.facts[T("item", SCOPE, C("server"))] = Fact(ne=frozenset([NONE]), tr=True)
        before = snap(eng, st, scope)
        for k, s, v in eng.run_call(st, ref, [scope, RECEIVE, SEND]):
            label = f"{typ} scope, scheme {scheme}: "
            apps = events(s, "app")
            ss = starts(s)
            if scheme not in SECURE:
                ctx.oblige("passing path")
                if len(apps) != 1 or apps[0][1:] != (scope, RECEIVE, SEND) or ss or s.mon["scope_at_app"] is not before:
                    eng.report("secure-passes", Q, s, label + "the application is not reached with the untouched request")
                continue
            ctx.oblige("redirecting path")
            if apps:
                eng.report("insecure-never-reaches-app", Q, s, label + "the application is reached")
                continue
            if k == "raise":
                eng.report("redirect", Q, s, label + f"raises {show(v)}")
                continue
            if len(ss) != 1 or sfield(ss[0], "status") not in (C(307), C(308)):
                eng.report("redirect", Q, s, label + f"answers {[show(sfield(x, 'status')) for x in ss]}")
                continue
            loc = header_of(ss[0], b"location")
            check_location(eng, s, loc, scheme, label)


def check_location(eng, s, loc, scheme, label):
    if loc is None:
        eng.report("location", Q, s, label + "no Location header")
        return
    sub = subterms(loc)
    want = C(SECURE[scheme])
    texts = {cval(x) for x in sub if is_c(x) and isinstance(cval(x), str)}
    if not any(t == SECURE[scheme] or t.startswith(SECURE[scheme] + "://") for t in texts):
        eng.report("location", Q, s, label + f"Location is not built with scheme {SECURE[scheme]}: {show(loc)}")
        return
    other = {"https", "wss", "http", "ws"} - {SECURE[scheme]}
    reps = [x for x in sub if is_t(x, "m") and x.a[1] == "_replace"]
    inner = {y for r in reps for y in subterms(r) if y is not r and y in reps}
    for r in reps:
        if r in inner:
            continue
        kw, base = {}, r
        while True:                      # a chain of successive replacements acts as one (the last one wins)
            if is_t(base, "m") and base.a[1] == "_replace":
                kw = {**dict(zip(base.a[3::2], base.a[4::2])), **kw}
                base = base.a[2]
            elif is_t(base, "call") and base.a[1] == "urllib.parse.urlsplit" and is_t(base.a[2], "m") and base.a[2].a[1] == "geturl":
                base = base.a[2].a[2]
            else:
                break
        sc = kw.get(C("scheme"))
        if sc is not None and sc is not want:
            eng.report("location", Q, s, label + f"scheme replaced by {show(sc)}")
        nl = kw.get(C("netloc"))
        host, net = T("attr", base, "hostname"), T("attr", base, "netloc")
        port = T("attr", base, "port")
        tup = [T("in", port, Tup((C(x), C(y)))) for x, y in ((80, 443), (443, 80))]
        f = s.facts.get(port, NOFACT)
        is_default = f.eq in (C(80), C(443)) or any(eng.truth(s, t) is True for t in tup)
        not_default = {C(80), C(443)} <= set(f.ne) or (f.eq is not None and f.eq not in (C(80), C(443))) or any(eng.truth(s, t) is False for t in tup)
        if nl in (net, None) and not not_default:
            eng.report("location", Q, s, label + "an explicit default port may be kept (http port on an https URL)")
        if nl is host and not is_default:
            eng.report("location", Q, s, label + "a non-default port is dropped")
        for key in ("path", "query"):
            if C(key) in kw:
                eng.report("location", Q, s, label + f"the request's {key} is replaced")
    if not any(x is T("item", SCOPE, C("path")) for x in sub):
        eng.report("location", Q, s, label + "Location does not contain the request path")
    q = T("item", SCOPE, C("query_string"))
    if eng.truth(s, q) is not False and eng.truth(s, T("in", C("query_string"), SCOPE)) is not False and q not in sub:
        eng.report("location", Q, s, label + "Location loses the query string")
