"""Path analysis of the session middleware: what becomes the session, and when and how the session cookie is written.

The middleware is built with constant options (with/without max-age, secure, domain) and a symbolic secret; its __call__
is interpreted with a symbolic request around an application that leaves the session alone, fills it, empties it in place
or replaces it.  At the moment the application is called the session must be an empty mapping or the decoded content of a
value the signer verified (with the configured max-age) from this request's session cookie.  At the response start the
branch facts decide whether the session is non-empty; the headers appended are compared, as terms, with the required cookie.
"""
from ..mw import *
from .common import *

Q = "starlette.middleware.sessions.SessionMiddleware"
SIGNERS = ("itsdangerous.TimestampSigner", "itsdangerous.timed.TimestampSigner")
LOADED = None


class Env14(MwEnv):
    def __init__(self, ctx, acts):
        super().__init__(scripts=[(START(), BODY("one"))])
        self.ctx, self.acts = ctx, acts

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        if name == "unsign" and any(is_t(x, "call") and x.a[1] in SIGNERS for x in subterms(recv)):
            self.ctx.oblige("signature verification")
            s2 = st.fork()
            s2.note(eng.loc(node), "the signature is bad")
            s2.mon["badsig"] = True
            kw = [x for k, v in sorted(kwargs.items()) for x in (C(k), v)]
            return ok(st, eng.fresh(st, "signer.unsign", tuple(args) + tuple(kw) + (T("recv", recv),), node)) + [("raise", s2, T("exc", "itsdangerous.exc.BadSignature", eng.nid(node)))]
        return super().on_method(eng, st, recv, name, args, kwargs, node)

    def aw_app(self, eng, st, args, node):
        scope = args[0] if args else NONE
        if scope.tag != "ref" or C("session") not in st.heap[scope].d:
            st.mon["session0"] = ABSENT
            return super().aw_app(eng, st, args, node)
        cur = st.heap[scope].d[C("session")]
        st.mon["session0"] = cur
        st.mon["session0len"] = len(st.heap[cur].d) if cur.tag == "ref" and st.heap[cur].kind == "dict" else None
        outs = []
        for act in self.acts:
            s = st.fork()
            s.mon["act"] = act
            if act == "fill":
                if cur.tag == "ref":
                    s.heap[cur] = s.heap[cur].put(C("k"), S("v"))
                else:
                    s.facts[cur] = Fact(tr=True)
            elif act == "clear":
                if cur.tag == "ref":
                    s.heap[cur] = Obj("dict", d={})
                else:
                    s.facts[cur] = Fact(tr=False)
            elif act == "replace":
                new = eng.new_dict(s, "newsession", {C("n"): S("v2")})
                s.heap[scope] = s.heap[scope].put(C("session"), new)
            elif act == "replace-empty":
                new = eng.new_dict(s, "newsession", {})
                s.heap[scope] = s.heap[scope].put(C("session"), new)
            s.mon["session1"] = s.heap[scope].d[C("session")]
            s.note(eng.loc(node), f"application: {act}")
            outs.extend(super().aw_app(eng, s, args, node))
        return outs


def run(ctx):
    ctx.rule("verified-only", "the session seen by the application is empty or decoded from a value the signer verified within max-age")
    ctx.rule("fresh", "a request without a valid session cookie starts from a new empty mapping of its own")
    ctx.rule("persist", "a non-empty session at the response start is written once as a signed cookie of exactly that session")
    ctx.rule("clear", "a session that was loaded and is empty at the response start is removed by one expiring cookie")
    ctx.rule("quiet", "an untouched empty session writes no cookie")
    ctx.rule("attributes", "the cookie carries exactly the configured path, max-age, domain, httponly, samesite and secure attributes")
    for max_age in (100, None):
        for secure in (True, False):
            for domain in ("d.example", None):
                one(ctx, "http", max_age, secure, domain, ("none", "fill", "clear", "replace", "replace-empty"))
    one(ctx, "websocket", 100, False, None, ("none", "fill"))
    ctx.need("verified session", 8)
    ctx.need("cookie written", 24)
    ctx.need("clearing cookie", 8)
    ctx.need("no cookie", 8)
    ctx.assume("itsdangerous' TimestampSigner verifies signatures; base64 and json are trusted")


def text(v):
    """pieces of a header value: str for constants, V for terms"""
    while is_t(v, "m") and v.a[1] in ("encode",):
        v = v.a[2]
    if is_c(v):
        x = cval(v)
        return [x.decode("latin-1") if isinstance(x, bytes) else str(x)]
    if is_t(v, "concat"):
        return [(cval(x).decode("latin-1") if isinstance(cval(x), bytes) else str(cval(x))) if is_c(x) else x for x in v.a[1:]]
    return [v]


def attributes(v):
    """cookie header -> (name, value pieces, {attr: value})"""
    holes, s = [], ""
    for p in text(v):
        if isinstance(p, str):
            s += p
        else:
            s += f"\x00{len(holes)}\x01"
            holes.append(p)
    parts = [x.strip() for x in s.split(";")]
    name, _, val = parts[0].partition("=")
    at = {}
    for x in parts[1:]:
        if x:
            k, _, w = x.partition("=")
            at[k.strip().lower()] = w.strip()
    return name, val, at, holes


def verified(eng, s, v, max_age, label):
    """v is json.loads(b64decode(signer.unsign(<this cookie>, max_age=...)))"""
    un = {x: rescall(x) for x in subterms(v) if rescall(x) and rescall(x)[0] == "unsign"}
    if len(un) != 1:
        return "its content does not come from one signature verification"
    (u, (_, recv, args)), = un.items()
    if not any(is_t(x, "call") and x.a[1] in SIGNERS and S("secret") in subterms(x) for x in subterms(recv)):
        return "it is not verified with the configured secret"
    if max_age is not None and not (args[1:] == [C(max_age)] or args[1:] == [C("max_age"), C(max_age)]):
        return "the configured max-age is not enforced"
    if not mentions(args[0], T("item", SCOPE, C("headers"))):
        return "it does not come from this request's cookie"
    if not any(is_c(x) and cval(x) in ("sess", b"sess") for x in subterms(args[0])):
        return "it is not the session cookie that is read"
    # outside the verification nothing of the raw cookie is used
    if mentions(rebuild(v, lambda x: S("verified") if x is u else None, {}), SCOPE):
        return "an unverified payload is used"
    return None


def one(ctx, typ, max_age, secure, domain, acts):
    env = Env14(ctx, acts)
    eng = ctx.engine(env)
    st0 = eng.start_state()

    def cookies(e, st, a, kw, n):
        if a and is_c(e.known(st, a[0])) and not cval(e.known(st, a[0])):
            return ok(st, e.new_dict(st, n, {}))
        return ok(st, T("call", "cookies", *a))
    if has_fn(eng.p, "starlette.requests.cookie_parser"):
        eng.models["starlette.requests.cookie_parser"] = cookies
    kw = {"app": APP, "secret_key": S("secret"), "session_cookie": C("sess"), "max_age": C(max_age) if max_age else NONE, "path": C("/p"),
          "same_site": C("strict"), "https_only": B(secure), "domain": C(domain) if domain else NONE}
    want = {"path": "/p", "httponly": "", "samesite": "strict"}
    if secure:
        want["secure"] = ""
    if domain:
        want["domain"] = domain
    label = f"{typ} max_age={max_age} https_only={secure} domain={domain}: "
    for st, ref in build(eng, st0, Q, kw):
        first = eng.new_dict(st, "firstscope", {C("type"): C(typ), C("method"): C("GET"), C("path"): C("/"), C("query_string"): C(b""), C("headers"): eng.new_list(st, "firsthdrs", [])})
        env.acts = ("fill",)
        prior = [st] + [s0 for k0, s0, v0 in eng.run_call(st.fork(), ref, [first, RECEIVE, SEND]) if k0 == "ok"]
        env.acts = acts
        runs = []
        for s0 in prior:       # also after another client's request filled its session
            for key in ("ev", "session0", "session1", "act", "badsig"):
                s0.mon.pop(key, None)
            scope = new_scope(eng, s0, typ)
            s0.mon["before"] = frozenset(s0.heap)
            runs.extend(eng.run_call(s0, ref, [scope, RECEIVE, SEND]))
        for k, s, v in runs:
            ctx.oblige("path")

            def rep(rule, t):
                eng.report(rule, Q, s, label + t)
            apps = events(s, "app")
            if k == "raise":
                # decoding of a verified payload may fail only on data this deployment signed itself
                if not apps and not s.mon.get("badsig") and any(rescall(x) and rescall(x)[0] == "unsign" for t in s.facts for x in subterms(t)):
                    continue
                rep("verified-only", f"raises {show(v)}")
                continue
            if len(apps) != 1:
                rep("verified-only", "the application is not called exactly once")
                continue
            s0 = s.mon.get("session0")
            if s0 is ABSENT:
                rep("fresh", "the application sees no session")
                continue
            if s0 in s.mon["before"]:
                rep("fresh", "the session is an object that existed before the request")
            loaded = not (s0.tag == "ref")
            if loaded and s.mon.get("badsig"):
                rep("verified-only", "a session is loaded although the signature is bad")
            if loaded:
                ctx.oblige("verified session")
                why = verified(eng, s, s0, max_age, label)
                if why:
                    rep("verified-only", f"session {show(s0)}: {why}")
            elif s.mon.get("session0len") != 0:
                rep("fresh", "the initial session is not a new empty mapping")
            if typ != "http":
                continue
            ss = starts(s)
            if len(ss) != 1:
                continue
            hs = sfield(ss[0], "headers")
            if [it.a[0] for it in hs.a[:-1] if it.tag == "rest"] != [S("apphdr")]:
                rep("persist", "the application's own headers (cookies) are not kept as they are")
            added = [it for it in hs.a[:-1] if it.tag == "tup"]
            cks = [it for it in added if it.a[0] is C(b"set-cookie")]
            if len(cks) != len(added):
                rep("persist", f"adds headers {[show(it.a[0]) for it in added]}")
            s1 = s.mon["session1"]
            full = eng.truth(s, s1)
            if full is None:
                rep("persist", "the path does not examine whether the session is empty")
                continue
            if full:
                ctx.oblige("cookie written")
                if len(cks) != 1:
                    rep("persist", f"{len(cks)} session cookies for a non-empty session")
                    continue
                name, val, at, holes = attributes(cks[0].a[1])
                data = [h for h in holes if any(is_t(x, "call") and x.a[1] == "json.dumps" and x.a[2] is s1 for x in subterms(h))]
                if name != "sess" or val != "\x000\x01" or not data or data[0] is not holes[0]:
                    rep("persist", f"cookie does not carry the session: {show(cks[0].a[1])}")
                elif not signed(holes[0]):
                    rep("persist", "the session data is not signed with the configured secret")
                w = dict(want)
                if max_age:
                    w["max-age"] = str(max_age)
                if at != w:
                    rep("attributes", f"cookie attributes {at}, configured {w}")
            elif loaded:
                ctx.oblige("clearing cookie")
                if len(cks) != 1:
                    rep("clear", f"{len(cks)} cookies for a session that became empty")
                    continue
                name, val, at, holes = attributes(cks[0].a[1])
                gone = "1970" in at.pop("expires", "") or at.get("max-age") in ("0", "-1")
                at.pop("max-age", None)
                if name != "sess" or not gone or holes:
                    rep("clear", f"does not expire the session cookie: {show(cks[0].a[1])}")
                if at != want:
                    rep("attributes", f"clearing cookie attributes {at}, configured {want}")
            else:
                ctx.oblige("no cookie")
                if cks:
                    rep("quiet", "a cookie is written for an untouched empty session")


def signed(h):
    for x in subterms(h):
        r = rescall(x)
        if r and r[0] == "sign" and any(is_t(y, "call") and y.a[1] in SIGNERS and S("secret") in subterms(y) for y in subterms(r[1])):
            return True
    return False
