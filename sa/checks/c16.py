"""Path-condition analysis of the trusted-host middleware over representative configurations.

The middleware is built through its constructor for a family of allow-lists (exact names, subdomain wildcards, mixtures,
the universal wildcard, None), and its __call__ is interpreted with a fully symbolic request.  On every path the branch
facts must decide the admission formula "the Host header without its port equals a listed name or ends with the dotted
suffix of a listed wildcard": the application is reached exactly when it is true; otherwise the path answers 400, or a
redirect to the www. host when that option is on and www.<host> is listed.  Malformed wildcard patterns are rejected at
construction.
"""
from ..mw import *
from .common import *

Q = "starlette.middleware.trustedhost.TrustedHostMiddleware"
CONFIGS = [["example.com"], ["*.example.org"], ["example.com", "*.example.org", "www.foo.net"], ["www.example.com"], [], ["www.example.com", "example.com"], ["localhost", "example.com"]]
HOSTHDR = T("hdr", T("item", SCOPE, C("headers")), C("host"))


def run(ctx):
    p = ctx.p
    ctx.rule("admit-only-allowed", "the application is reached only when the Host header (port removed) matches an allowed pattern")
    ctx.rule("allowed-is-admitted", "a request whose Host header matches is never refused")
    ctx.rule("refusal", "every other request is answered with status 400, or a redirect to the listed www. host when www_redirect is set")
    ctx.rule("wildcard-any", "with '*' (or no list) every request reaches the application")
    ctx.rule("pattern-validation", "a wildcard anywhere but as the leading '*.' label is refused at construction")
    for typ in ("http", "websocket"):
        for cfg in CONFIGS:
            for redir in (True, False):
                one(ctx, typ, cfg, redir)
    for cfg in (["*"], None, ["example.com", "*"]):
        any_(ctx, cfg)
    for pat in ("ex*mple.com", "*example.com", "example.*", "*.*.com", "**"):
        env = MwEnv()
        eng = ctx.engine(env)
        st = eng.start_state()
        ctx.oblige("pattern validated")
        if not build_fails(eng, st, Q, {"app": APP, "allowed_hosts": clist(eng, st, [pat])}):
            eng.report("pattern-validation", Q, st, f"pattern {pat!r} is accepted")
    ctx.need("admitting path", 10)
    ctx.need("refusing path", 20)
    ctx.assume("allow-lists are represented by the configurations in the check; the request is unrestricted")


def one(ctx, typ, cfg, redir):
    eng = ctx.engine(MwEnv(scripts=[()]))
    eng.coarse = True
    st0 = eng.start_state()
    kw = {"app": APP, "allowed_hosts": clist(eng, st0, cfg), "www_redirect": B(redir)}
    inst = build(eng, st0, Q, kw)
    if not inst:
        eng.report("pattern-validation", Q, st0, f"valid allow-list {cfg} is refused")
    for st, ref in inst:
        scope = new_scope(eng, st, typ)
        for k, s, v in eng.run_call(st, ref, [scope, RECEIVE, SEND]):
            ctx.oblige("path")
            match, nomatch, wwwok = decide(eng, s, cfg)
            label = f"{typ} allowed_hosts={cfg} www_redirect={redir}: "
            if events(s, "app"):
                ctx.oblige("admitting path")
                if not match:
                    eng.report("admit-only-allowed", Q, s, label + "application reached on a path that does not establish that the host is allowed")
                if starts(s):
                    eng.report("refusal", Q, s, label + "application reached and a refusal sent")
                continue
            if k == "raise":
                eng.report("refusal", Q, s, label + f"raises {show(v)}")
                continue
            ctx.oblige("refusing path")
            if not nomatch:
                eng.report("allowed-is-admitted", Q, s, label + "refused on a path that does not establish that no allowed pattern matches")
            ss = starts(s)
            if len(ss) != 1:
                eng.report("refusal", Q, s, label + f"{len(ss)} response starts")
                continue
            code = sfield(ss[0], "status")
            if code is C(400):
                if redir and wwwok:
                    eng.report("refusal", Q, s, label + "400 although the www. host is listed and www_redirect is on")
                continue
            if not (redir and wwwok and is_c(code) and 300 <= cval(code) < 400):
                eng.report("refusal", Q, s, label + f"refused with status {show(code)}" + ("" if wwwok else " though the www. host is not listed"))
                continue
            loc = header_of(ss[0], b"location")
            if loc is None or not any(is_t(x, "concat") and x.a[1] is not None and is_c(x.a[1]) and str(cval(x.a[1])).endswith("www.") for x in subterms(loc)):
                eng.report("refusal", Q, s, label + "redirect does not lead to the www. host")


def header_of(sn, name):
    h = sfield(sn, "headers")
    if h is None or h.tag != "snaplist":
        return None
    for it in h.a[:-1]:
        if it.tag == "tup" and it.a[0] is C(name):
            return it.a[1]
    return None


def decide(eng, s, cfg):
    """(match established, no match established, www host listed established)"""
    present = eng.truth(s, T("hdrin", T("item", SCOPE, C("headers")), C("host")))
    if present is False:
        return False, True, False
    forms = first_item_forms(HOSTHDR, ":")
    pos, neg, www = False, True, False
    for pat in cfg:
        r = []
        for h in forms:
            kv = eng.known(s, h)
            if is_c(kv):
                r.append(cval(kv).endswith(pat[1:]) if pat.startswith("*") else cval(kv) == pat)
            elif pat.startswith("*"):
                r.append(eng.truth(s, T("m", "endswith", h, C(pat[1:]))))
            else:
                r.append(eng.eq_truth(s, h, C(pat)))
        if True in r:
            pos = True
        if False not in r:
            neg = False
        if pat.startswith("www."):
            for h in forms:
                if eng.eq_truth(s, T("concat", C("www."), h), C(pat)) is True or eng.eq_truth(s, h, C(pat[4:])) is True:
                    www = True
    return pos, neg, www


def any_(ctx, cfg):
    eng = ctx.engine(MwEnv(scripts=[()]))
    st0 = eng.start_state()
    kw = {"app": APP}
    if cfg is not None:
        kw["allowed_hosts"] = clist(eng, st0, cfg)
    for st, ref in build(eng, st0, Q, kw):
        scope = new_scope(eng, st, "http")
        for k, s, v in eng.run_call(st, ref, [scope, RECEIVE, SEND]):
            ctx.oblige("path")
            if len(events(s, "app")) != 1 or events(s, "fwd"):
                eng.report("wildcard-any", Q, s, f"allowed_hosts={cfg}: the application is not reached")
