"""Pass-through analysis of every middleware class for scopes it must not touch.

Every class of the middleware package that wraps an ASGI application is constructed through its constructor with symbolic
options, and its __call__ is interpreted for a scope of type lifespan, of an unknown type, and (for the classes that only
treat HTTP) websocket.  On every path the inner application must be awaited exactly once with the very scope, receive and
send objects that came in (websocket: the HTTP-only classes), nothing may be sent, received or dispatched by the
middleware itself, the scope must be unchanged, and what the application raises must leave the middleware.
"""
from ..mw import *
from .common import *

WSGI = "starlette.middleware.wsgi"
HANDLE_WS = ("starlette.middleware.sessions.SessionMiddleware", "starlette.middleware.authentication.AuthenticationMiddleware",
             "starlette.middleware.trustedhost.TrustedHostMiddleware", "starlette.middleware.httpsredirect.HTTPSRedirectMiddleware",
             "starlette.middleware.exceptions.ExceptionMiddleware")


class Env37(MwEnv):
    def unexpected(self, eng, st, what, node):
        self.ev(st, "other", what)

    def aw_receive(self, eng, st, args, node):
        self.ev(st, "other", "receive")
        return ok(st, NONE)


def run(ctx):
    p = ctx.p
    ctx.rule("app-called-once", "the inner application is awaited exactly once on every path")
    ctx.rule("same-objects", "the inner application gets the same scope, receive and send objects")
    ctx.rule("no-own-traffic", "the middleware sends and receives nothing itself")
    ctx.rule("scope-unchanged", "no key of the scope is added, changed or removed")
    ctx.rule("exception-leaves", "an exception of the application is not swallowed or replaced")
    for q in middleware_classes(p):
        if q.startswith(WSGI) or "Responder" in q:
            continue
        ctx.oblige("middleware class")
        for typ in ("lifespan", "?", "websocket"):
            if typ == "websocket" and q in HANDLE_WS:
                continue
            env = Env37(scripts=[()], app_raise=True)
            eng = ctx.engine(env)
            eng.coarse, eng.join_sync = True, 4
            st0 = eng.start_state()
            for st, inst in build(eng, st0, q, sym_args(p, q)):
                if typ == "?":
                    scope = new_scope(eng, st, S("sctype"))
                    st.facts[S("sctype")] = Fact(ne=frozenset(C(x) for x in ("http", "websocket")), tr=True)
                else:
                    scope = new_scope(eng, st, typ)
                before = snap(eng, st, scope)
                for k, s, v in eng.run_call(st, inst, [scope, RECEIVE, SEND]):
                    ctx.oblige("path")
                    apps = events(s, "app")
                    rep = lambda rule, text: eng.report(rule, q, s, f"scope type {typ}: {text}")
                    if len(apps) != 1:
                        rep("app-called-once", f"application awaited {len(apps)} times")
                        continue
                    if apps[0][1:] != (scope, RECEIVE, SEND):
                        rep("same-objects", "application called with " + ", ".join(show(x) for x in apps[0][1:]))
                    if events(s, "fwd", "other"):
                        rep("no-own-traffic", f"the middleware itself used send/receive ({len(events(s, 'fwd', 'other'))} messages)")
                    if s.mon.get("scope_at_app") is not before or snap(eng, s, scope) is not before:
                        rep("scope-unchanged", "the scope was modified")
                    raised = bool(events(s, "appraise"))
                    if raised and (k != "raise" or not (is_t(v, "exc") and v.a[2] == "app")):
                        rep("exception-leaves", f"the application raised but the middleware ended with {k} {show(v) if isinstance(v, V) else v}")
                    if not raised and k == "raise":
                        rep("exception-leaves", f"the application returned but the middleware raised {show(v)}")
    ctx.need("middleware class", 9)
    ctx.need("path", 30)
    ctx.assume("middleware classes are those of starlette.middleware whose constructor takes `app` first and that define an async __call__; the WSGI bridge is not an ASGI middleware")
