"""Path analysis of the authentication middleware with a most general backend.

The backend may return None, a (credentials, user) pair, raise AuthenticationError, or raise anything else.  On every
path: the application is reached only after the backend returned, with scope["auth"] and scope["user"] holding the pair in
order (or anonymous credentials and the unauthenticated user); after AuthenticationError the application is not reached,
an http request gets exactly the response of on_error (default 400) and a websocket exactly one close; other exceptions
leave the middleware.
"""
from ..mw import *
from .common import *

Q = "starlette.middleware.authentication.AuthenticationMiddleware"
ERR = "starlette.authentication.AuthenticationError"


class Env19(MwEnv):
    def __init__(self, ctx, custom):
        super().__init__(scripts=[()], app_raise=True)
        self.ctx, self.custom = ctx, custom

    def app_exc(self, eng, st, node):
        return T("exc", ERR, "app")

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        if recv is S("backend") and name == "authenticate":
            return ok(st, aw("authenticate", *(list(args) + list(kwargs.values()))))
        return super().on_method(eng, st, recv, name, args, kwargs, node)

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "on_error":
            self.ev(st, "on_error", *args)
            return ok(st, S("errresp"))
        if name == "errresp":
            return ok(st, aw("errresp", *args))
        return super().on_call(eng, st, name, args, kwargs, node)

    def aw_errresp(self, eng, st, args, node):
        self.ev(st, "errresp", *args)
        return ok(st, NONE)

    def aw_authenticate(self, eng, st, args, node):
        self.ctx.oblige("backend call")
        self.ev(st, "authenticate", *args)
        res = []
        for kind in ("none", "pair", "autherror", "other"):
            s = st.fork()
            s.mon["auth"] = kind
            s.note(eng.loc(node), f"backend: {kind}")
            if kind == "none":
                res.append(("ok", s, NONE))
            elif kind == "pair":
                res.append(("ok", s, Tup((S("creds"), S("user")))))
            elif kind == "autherror":
                res.append(("raise", s, T("exc", ERR, "backend")))
            else:
                res.append(("raise", s, T("exc", "builtins.ValueError", "backend")))
        return res


def run(ctx):
    ctx.rule("backend-first", "the backend is consulted exactly once, before the application")
    ctx.rule("user-in-scope", "the application sees exactly the backend's credentials and user, or the anonymous ones")
    ctx.rule("reject", "an authentication error never reaches the application and is answered by on_error / one websocket close")
    ctx.rule("others-propagate", "any other exception of the backend leaves the middleware")
    for typ in ("http", "websocket"):
        for custom in (True, False):
            one(ctx, typ, custom)
    ctx.need("backend call", 4)
    ctx.need("path", 16)


def is_inst(s, v, qual):
    return v is not None and v.tag == "ref" and v in s.heap and s.heap[v].kind == "inst" and getattr(s.heap[v].cls, "qual", None) == qual


def one(ctx, typ, custom):
    env = Env19(ctx, custom)
    eng = ctx.engine(env)
    st0 = eng.start_state()
    kw = {"app": APP, "backend": S("backend")}
    if custom:
        kw["on_error"] = S("on_error")
        st0.facts[S("on_error")] = Fact(tr=True, ne=frozenset([NONE]))
    for st, ref in build(eng, st0, Q, kw):
        scope = new_scope(eng, st, typ)
        for k, s, v in eng.run_call(st, ref, [scope, RECEIVE, SEND]):
            ctx.oblige("path")
            label = f"{typ}: "
            rep = lambda rule, text: eng.report(rule, Q, s, label + text)
            evs = s.mon.get("ev", ())
            kind = s.mon.get("auth")
            kinds = [e[0] for e in evs]
            if kinds.count("authenticate") != 1:
                rep("backend-first", f"backend consulted {kinds.count('authenticate')} times")
                continue
            apps = [e for e in evs if e[0] == "app"]
            fw = [e[1] for e in evs if e[0] == "fwd"]
            if apps and kinds.index("app") < kinds.index("authenticate"):
                rep("backend-first", "application called before the backend")
            if any(e[0] == "appraise" for e in evs):
                if k != "raise" or v is not T("exc", ERR, "app") or fw:
                    rep("others-propagate", "an authentication error raised by the application itself does not simply propagate")
                continue
            if kind in ("none", "pair"):
                if len(apps) != 1 or apps[0][2:] != (RECEIVE, SEND) or apps[0][1] is not scope or fw:
                    rep("user-in-scope", "the application is not called once with the request's scope, receive and send")
                    continue
                sn = s.mon["scope_at_app"]
                a, u = sfield(sn, "auth"), sfield(sn, "user")
                if kind == "pair":
                    if a is not S("creds") or u is not S("user"):
                        rep("user-in-scope", f"scope auth/user are {show(a)} / {show(u)}")
                else:
                    good = is_inst(s, a, "starlette.authentication.AuthCredentials") and is_inst(s, u, "starlette.authentication.UnauthenticatedUser")
                    if good:
                        for kk, s2, sc in eng.getattr(s.fork(), a, "scopes", "attr"):
                            if kk != "ok" or eng.truth(s2, sc) is not False:
                                good = False
                        for kk, s2, b in eng.getattr(s.fork(), u, "is_authenticated", "attr"):
                            if kk != "ok" or b is not FALSE:
                                good = False
                    if not good:
                        rep("user-in-scope", f"anonymous request gets auth={show(a)} user={show(u)}")
            elif kind == "autherror":
                if apps:
                    rep("reject", "application reached although authentication failed")
                if k == "raise":
                    rep("reject", f"raises {show(v)}")
                    continue
                if typ == "websocket":
                    if [stype(x) for x in fw] != ["websocket.close"] or "errresp" in kinds:
                        rep("reject", f"websocket answered with {[stype(x) for x in fw]}")
                elif custom:
                    er = [e for e in evs if e[0] == "errresp"]
                    oe = [e for e in evs if e[0] == "on_error"]
                    if len(er) != 1 or er[0][1] is not scope or er[0][2:] != (RECEIVE, SEND) or fw:
                        rep("reject", "the on_error response is not sent exactly once with the request's scope, receive and send")
                    if len(oe) != 1 or len(oe[0]) != 3 or oe[0][2] is not T("exc", ERR, "backend"):
                        rep("reject", "on_error is not called once with (connection, error)")
                else:
                    if len(starts(s)) != 1 or sfield(starts(s)[0], "status") is not C(400):
                        rep("reject", f"default refusal has status {[show(sfield(x, 'status')) for x in starts(s)]}")
            else:
                if k != "raise" or v is not T("exc", "builtins.ValueError", "backend") or apps or fw:
                    rep("others-propagate", "an unexpected backend error does not simply leave the middleware")
