"""Path-condition analysis of the CORS middleware over representative configurations with a fully symbolic request.

The middleware is built through its constructor for wildcard / listed / regular-expression origins, with and without
credentials, listed or wildcard methods and headers; its __call__ is interpreted with symbolic method and headers.  On
every path the branch facts must decide the CORS formulas (is it a preflight, is the origin allowed, is the method
allowed, is every requested header allowed), and what was sent must agree with them: who answers, the status, and the
exact Access-Control-* and Vary headers, as terms over the request's own Origin value.
"""
from ..mw import *
from .common import *
from .c16 import header_of

Q = "starlette.middleware.cors.CORSMiddleware"
HS = T("item", SCOPE, C("headers"))
ORIGIN = T("hdr", HS, C("origin"))
METHOD = T("item", SCOPE, C("method"))
ACRM = T("hdr", HS, C("access-control-request-method"))
ACRH = T("hdr", HS, C("access-control-request-headers"))
SAFE = {"Accept", "Accept-Language", "Content-Language", "Content-Type"}
ALL = ("DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT")

CONFIGS = [
    dict(),
    dict(origins=("*",), methods=("*",), headers=("*",)),
    dict(origins=("*",), methods=("*",), headers=("*",), cred=True, expose=("X-Status",)),
    dict(origins=("*",), headers=("X-Token",), methods=("GET", "POST")),
    dict(origins=("https://a.example", "https://b.example"), headers=("X-Token", "Content-Type"), methods=("GET", "POST"), expose=("X-One", "X-Two")),
    dict(origins=("https://a.example",), cred=True, headers=("*",)),
    dict(regex=True, headers=("X-Token",)),
    dict(regex=True, origins=("https://a.example",), cred=True),
    dict(regex=True, origins=("*",), cred=True),
]


def has(eng, s, name):
    return eng.truth(s, T("hdrin", HS, C(name)))


def origin_allowed(eng, s, cfg):
    """True / False / None as far as the path facts decide it"""
    if "*" in cfg.get("origins", ()):
        return True
    kv = eng.known(s, ORIGIN)
    r = []
    for o in cfg.get("origins", ()):
        r.append(cval(kv) == o if is_c(kv) else eng.eq_truth(s, ORIGIN, C(o)))
    if cfg.get("regex"):
        r.append(regex_truth(eng, s))
    if True in r:
        return True
    if None in r:
        return None
    return False


def regex_truth(eng, s):
    res = None
    for t, f in s.facts.items():
        m = t
        if not (is_t(m, "m") or is_t(m, "call")) or ORIGIN not in subterms(m):
            continue
        if is_t(m, "m"):
            if m.a[1] != "fullmatch" or not any(x is S("regex") for x in subterms(m.a[2])) or m.a[3] is not ORIGIN:
                continue
        elif m.a[1] != "re.fullmatch" or m.a[2] is not S("regex") or m.a[3] is not ORIGIN:
            continue
        tr = eng.truth(s, m)
        if tr is None and f.eq is NONE:
            tr = False
        if tr is None and NONE in f.ne:
            tr = True
        if tr is not None:
            res = tr
    return res


def member(eng, s, v, allowed):
    kv = eng.known(s, v)
    if is_c(kv):
        return cval(kv) in allowed
    r = [eng.eq_truth(s, v, C(x)) for x in allowed]
    if True in r:
        return True
    if all(x is False for x in r):
        return False
    for perm in (tuple(allowed), tuple(sorted(allowed))):
        tr = eng.truth(s, T("in", v, Tup([C(x) for x in perm])))
        if tr is not None:
            return tr
    # a recorded disjunction of equalities over exactly the allowed values
    want = {eqt(v, C(x)) for x in allowed}
    for t, f in s.facts.items():
        if is_t(t, "or") and set(t.a[1:]) == want and f.tr is not None:
            return f.tr
    return None


def norm_of_(t, base):
    """t is base up to strip/lower: (is it, was it lowered, was it stripped)"""
    low = stp = False
    while True:
        if t is base:
            return True, low, stp
        if is_t(t, "m") and t.a[1] in ("lower", "casefold", "strip") and len(t.a) == 3:
            low |= t.a[1] != "strip"
            stp |= t.a[1] == "strip"
            t = t.a[2]
        else:
            return False, low, stp


norm_of = norm_of_


def lowered(el):
    return any(plist(x) and norm_of(x.a[2], ACRH)[1] for x in subterms(el))


def header_facts(facts, el, allowed):
    """(established allowed, established disallowed) for the element el under a fact collection [(term, Fact)]"""
    low = {x.lower() for x in allowed}
    pre = lowered(el)

    def norm_of(t, base):
        g, lw, sp = norm_of_(t, base)
        return g, lw or pre, sp
    pos, ne = False, {}
    neg = False
    for t, f in facts:
        good, lw, sp = norm_of(t, el)
        if good and lw and sp:
            if f.eq is not None and is_c(f.eq) and cval(f.eq) in low:
                pos = True
            if f.eq is not None and is_c(f.eq) and cval(f.eq) not in low:
                neg = True
            ne.setdefault(t, set()).update(cval(x) for x in f.ne if is_c(x))
        if is_t(t, "or"):
            vals, subj = set(), set()
            for q in t.a[1:]:
                if is_t(q, "eq"):
                    a, b = q.a[1], q.a[2]
                    if is_c(a):
                        a, b = b, a
                    if is_c(b):
                        vals.add(cval(b)); subj.add(a)
            if len(subj) == 1 and len(vals) == len(t.a) - 1:
                g2, lw, sp = norm_of(next(iter(subj)), el)
                if g2 and lw and sp:
                    if f.tr is True and vals <= low:
                        pos = True
                    if f.tr is False and low <= vals:
                        neg = True
        if is_t(t, "in") and f.tr is not None:
            g2, lw, sp = norm_of(t.a[1], el)
            if g2 and lw and sp and t.a[2].tag == "tup":
                vals = {cval(x) for x in t.a[2].a if is_c(x)}
                if f.tr is True and vals <= low:
                    pos = True
                if f.tr is False and low <= vals:
                    neg = True
    for t, vs in ne.items():
        if low <= vs:
            neg = True
    return pos, neg


def plist(t, acc=None):
    """the request-headers list terms: sources whose elements come from splitting ACRH at commas"""
    return is_t(t, "m") and t.a[1] == "split" and norm_of(t.a[2], ACRH)[0] and t.a[3] is C(",")


def headers_allowed(eng, s, cfg):
    h = has(eng, s, "access-control-request-headers")
    if h is False:
        return True
    if "*" in cfg.get("headers", ()):
        return True
    if h is None:
        return None
    allowed = SAFE | set(cfg.get("headers", ()))
    for key, altsets in s.iterf.items():
        if key[0] != "all":
            continue
        src = key[1]
        if not any(plist(x) for x in subterms(src)):
            continue
        for alts in altsets:
            if alts and all(any(header_facts(list(alt), el, allowed)[0] for el in elems(alt)) for alt in alts):
                return True
    # any(...) / all(...) over the list
    low = {x.lower() for x in allowed}
    for t, f in s.facts.items():
        if is_t(t, "exists") and f.tr is not None and any(plist(x) for x in subterms(t.a[1])):
            el = T("bv", t.a[1])
            pos, neg = header_facts(conj_facts(t.a[2]), el, allowed)
            vals = outside(t.a[2], el)
            if f.tr is True and neg:
                return False
            if f.tr is False and vals is not None and vals <= low:
                return True
    # a single offending element
    els = {x for t in s.facts for x in subterms(t) if is_elem(x)}
    for el in els:
        if header_facts(list(s.facts.items()), el, allowed)[1]:
            return False
    return None


def conj_facts(p):
    out = []
    for q in p.a[1:] if is_t(p, "and") else (p,):
        val = True
        while is_t(q, "not"):
            q, val = q.a[1], not val
        if is_t(q, "eq"):
            a, b = (q.a[1], q.a[2]) if is_c(q.a[2]) else (q.a[2], q.a[1])
            out.append((a, Fact(eq=b) if val else Fact(ne=frozenset([b]))))
        else:
            out.append((q, Fact(tr=val)))
    return out


def outside(p, el):
    """p says exactly: the normalised element is none of the returned values"""
    vals, subj = set(), set()
    for q in p.a[1:] if is_t(p, "and") else (p,):
        if not is_t(q, "not"):
            return None
        q = q.a[1]
        for e in q.a[1:] if is_t(q, "or") else (q,):
            if not is_t(e, "eq"):
                return None
            a, b = (e.a[1], e.a[2]) if is_c(e.a[2]) else (e.a[2], e.a[1])
            if not is_c(b):
                return None
            vals.add(cval(b))
            subj.add(a)
    if len(subj) != 1:
        return None
    g, lw, sp = norm_of(next(iter(subj)), el)
    return vals if g and sp and (lw or lowered(el)) else None


def is_elem(x):
    return x.tag == "t" and x.a[0] in ("elem", "bv", "iter") and any(plist(y) for y in subterms(x))


def elems(alt):
    return {x for t, f in alt for x in subterms(t) if x.tag == "t" and x.a[0] in ("bv", "elem", "iter")}


def plain(v):
    while v is not None and is_t(v, "m") and v.a[1] in ("encode", "decode"):
        v = v.a[2]
    if v is not None and is_c(v) and isinstance(cval(v), bytes):
        return C(cval(v).decode("latin-1"))
    return v


def hvals(sn, name):
    h = sfield(sn, "headers")
    if h is None or h.tag != "snaplist":
        return []
    return [plain(it.a[1]) for it in h.a[:-1] if it.tag == "tup" and it.a[0] is C(name)]


def csv(v):
    return {x.strip().lower() for x in cval(v).split(",")} if v is not None and is_c(v) else None


def run(ctx):
    ctx.rule("no-origin", "a request without Origin reaches the application and its response gets no CORS headers")
    ctx.rule("preflight", "exactly the preflights (OPTIONS with Origin and Access-Control-Request-Method) are answered by the middleware, everything else reaches the application once")
    ctx.rule("preflight-status", "a preflight gets 200 exactly when origin, method and every requested header are allowed, else 400")
    ctx.rule("allow-origin", "Access-Control-Allow-Origin is '*' or the request's Origin, only when that origin is allowed")
    ctx.rule("vary", "whenever the response depends on the Origin value it carries Vary: Origin, keeping the application's own Vary")
    ctx.rule("credentials", "Access-Control-Allow-Credentials: true exactly when configured")
    ctx.rule("lists", "methods, headers, exposed headers and max-age are announced as configured")
    for cfg in CONFIGS:
        one(ctx, cfg)
    ctx.need("preflight path", 20)
    ctx.need("simple response path", 12)
    ctx.need("path without Origin", len(CONFIGS))
    ctx.assume("configurations are the representative family of the check; the regular expression is opaque and matched with fullmatch")


def one(ctx, cfg):
    eng = ctx.engine(MwEnv(scripts=[(START(), BODY("one"))]))
    
    st0 = eng.start_state()
    kw = {"app": APP}
    for k, n in (("origins", "allow_origins"), ("methods", "allow_methods"), ("headers", "allow_headers"), ("expose", "expose_headers")):
        if k in cfg:
            kw[n] = clist(eng, st0, list(cfg[k]), n)
    if cfg.get("cred"):
        kw["allow_credentials"] = TRUE
    if cfg.get("regex"):
        kw["allow_origin_regex"] = S("regex")
    kw["max_age"] = C(77)
    st0.facts[S("regex")] = Fact(ne=frozenset([NONE]), tr=True)
    wild = "*" in cfg.get("origins", ())
    label0 = ", ".join(f"{k}={v}" for k, v in cfg.items()) or "defaults"
    for st, ref in build(eng, st0, Q, kw):
        first = eng.new_dict(st, "firstscope", {C("type"): C("http"), C("method"): C("OPTIONS"), C("path"): C("/"), C("query_string"): C(b""), C("headers"): eng.new_list(
            st, "firsthdrs", [Tup((C(a), C(b))) for a, b in ((b"origin", b"https://a.example"), (b"access-control-request-method", b"GET"), (b"access-control-request-headers", b"X-Token"), (b"cookie", b"k=v"))])})
        # an earlier preflight from another client must leave no trace
        prior = [(st, None)] + [(s0, 1) for k0, s0, v0 in eng.run_call(st.fork(), ref, [first, RECEIVE, SEND]) if k0 == "ok"]
        runs = []
        for s0, after in prior:
            s0.mon.pop("ev", None)
            scope = new_scope(eng, s0, "http")
            runs.extend((scope, after) + o for o in eng.run_call(s0, ref, [scope, RECEIVE, SEND]))
        for scope, after, k, s, v in runs:
            ctx.oblige("path")
            ctx.oblige("path after an earlier preflight", 1 if after else 0)

            def rep(rule, text):
                eng.report(rule, Q, s, f"[{label0}] {text}")
            if k == "raise":
                rep("preflight", f"raises {show(v)}")
                continue
            apps = events(s, "app")
            ss = starts(s)
            o = has(eng, s, "origin")
            is_opt = eng.eq_truth(s, METHOD, C("OPTIONS"))
            acrm = has(eng, s, "access-control-request-method")
            if not apps:
                if not (o is True and is_opt is True and acrm is True):
                    rep("preflight", "answered by the middleware on a path that is not known to be a preflight")
                ctx.oblige("preflight path")
                preflight(eng, s, cfg, wild, ss, rep)
                continue
            if len(apps) != 1 or apps[0][1] is not scope or apps[0][2] is not RECEIVE:
                rep("preflight", "the application is not called exactly once with the request's scope and receive channel")
            if o is not False and is_opt is not False and acrm is not False:
                rep("preflight", "a preflight may reach the application")
            if len(ss) != 1:
                rep("preflight", f"{len(ss)} response starts")
                continue
            if o is False:
                ctx.oblige("path without Origin")
                if any(it.tag == "tup" for it in sfield(ss[0], "headers").a[:-1]):
                    rep("no-origin", "the response to a request without Origin gets extra headers")
                continue
            ctx.oblige("simple response path")
            simple(eng, s, cfg, wild, ss[0], rep, o)


def preflight(eng, s, cfg, wild, ss, rep):
    if len(ss) != 1:
        rep("preflight", f"{len(ss)} response starts")
        return
    sn = ss[0]
    cred = bool(cfg.get("cred"))
    methods = ALL if "*" in cfg.get("methods", ("GET",)) else cfg.get("methods", ("GET",))
    okk = [origin_allowed(eng, s, cfg), member(eng, s, ACRM, list(methods)), headers_allowed(eng, s, cfg)]
    code = sfield(sn, "status")
    names = ("origin", "method", "requested headers")
    if code is C(200):
        for n, x in zip(names, okk):
            if x is not True:
                rep("preflight-status", f"200 on a path that does not establish that the {n} is allowed")
    elif code is C(400):
        if False not in okk:
            rep("preflight-status", "400 on a path that does not establish that origin, method or headers are refused")
    else:
        rep("preflight-status", f"preflight answered with {show(code)}")
    acao = hvals(sn, b"access-control-allow-origin")
    explicit = not wild or cred
    if len(acao) > 1:
        rep("allow-origin", "several Access-Control-Allow-Origin headers")
    if acao and not (acao[0] is C("*") and wild and not cred) and not (same_origin(eng, s, acao[0]) and okk[0] is True):
        rep("allow-origin", f"preflight announces {show(acao[0])} on a path where that origin is not known to be allowed")
    if okk[0] is True and not acao:
        rep("allow-origin", "preflight of an allowed origin lacks Access-Control-Allow-Origin")
    if explicit:
        v = hvals(sn, b"vary")
        if not any(is_c(x) and "origin" in csv(x) for x in v):
            rep("vary", "preflight response depends on Origin but lacks Vary: Origin")
    ac = hvals(sn, b"access-control-allow-credentials")
    if (ac != [C("true")]) if cred else bool(ac):
        rep("credentials", f"preflight carries Access-Control-Allow-Credentials {[show(x) for x in ac]}")
    am = hvals(sn, b"access-control-allow-methods")
    if len(am) != 1 or csv(am[0]) != {m.lower() for m in methods}:
        rep("lists", f"preflight announces methods {[show(x) for x in am]}")
    if hvals(sn, b"access-control-max-age") != [C("77")]:
        rep("lists", "preflight does not announce the configured max-age")
    ah = hvals(sn, b"access-control-allow-headers")
    if "*" in cfg.get("headers", ()):
        if has(eng, s, "access-control-request-headers") is True and not (len(ah) == 1 and ah[0] is ACRH):
            rep("lists", "with all headers allowed the requested headers are not mirrored")
    elif len(ah) != 1 or csv(ah[0]) != {h.lower() for h in SAFE | set(cfg.get("headers", ()))}:
        rep("lists", f"preflight announces headers {[show(x) for x in ah]}")


def same_origin(eng, s, v):
    return v is ORIGIN or (is_c(v) and eng.known(s, ORIGIN) is v)


def simple(eng, s, cfg, wild, sn, rep, o):
    cred = bool(cfg.get("cred"))
    acao = hvals(sn, b"access-control-allow-origin")
    if len(acao) > 1:
        rep("allow-origin", "several Access-Control-Allow-Origin headers")
    al = origin_allowed(eng, s, cfg)
    cookie = has(eng, s, "cookie")
    if acao and acao[0] is C("*"):
        if not wild:
            rep("allow-origin", "wildcard sent although origins are restricted")
        elif cookie is not False:
            rep("allow-origin", "wildcard sent for a request that may carry cookies")
    elif acao:
        if not same_origin(eng, s, acao[0]):
            rep("allow-origin", f"Access-Control-Allow-Origin is {show(acao[0])}, neither '*' nor the request's Origin")
        elif al is not True:
            rep("allow-origin", "the Origin is echoed on a path that does not establish that it is allowed")
        vary(eng, s, sn, rep)
    elif al is not False:
        rep("allow-origin", "an allowed origin may get no Access-Control-Allow-Origin")
    ac = hvals(sn, b"access-control-allow-credentials")
    if (ac != [C("true")]) if cred else bool(ac):
        rep("credentials", f"response carries Access-Control-Allow-Credentials {[show(x) for x in ac]}")
    ex = hvals(sn, b"access-control-expose-headers")
    want = cfg.get("expose")
    if (len(ex) != 1 or csv(ex[0]) != {x.lower() for x in want}) if want else bool(ex):
        rep("lists", f"response exposes {[show(x) for x in ex]}")


def vary(eng, s, sn, rep):
    v = hvals(sn, b"vary")
    good = False
    for x in v:
        txt = "".join(str(cval(y)) for y in (x.a[1:] if is_t(x, "concat") or is_t(x, "joined") else (x,)) if is_c(y))
        if "origin" in txt.lower():
            good = True
    app = S("apphdr")
    if not good:
        rep("vary", "Origin echoed without Vary: Origin")
        return
    dropped = any(it.tag == "rest" and any(is_t(y, "without") and y.a[2] is C(b"vary") for y in subterms(it)) for it in sfield(sn, "headers").a[:-1])
    if dropped and eng.truth(s, T("hdrin", app, C("vary"))) is not False and not any(mentions(x, T("hdr", app, C("vary"))) or mentions(x, T("hdrlist", app, C(b"vary"))) for x in v):
        rep("vary", "the application's own Vary header is lost")
