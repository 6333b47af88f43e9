"""Transparency analysis of the middleware that wraps an application's send.

Each such class (session, CORS, authentication, trusted host, HTTPS redirect, server error, exception; compression and
dispatch middleware have their own checks) is built through its constructor with symbolic options and interpreted around
an inner application that sends whole responses, streamed responses, messages of extension types, nothing at all, or
raises.  On every path that reaches the application: each message the application sends is handed to the server exactly
once, before the next one, with the same type and the same fields; only the header list of the response start may be
extended or have the class's own response headers replaced; the receive channel is passed through; the middleware sends
nothing of its own after the application took over (error middleware: nothing before the application raised); and the
application's exception leaves.
"""
from ..mw import *
from .common import *

SKIP = ("starlette.middleware.base.", "starlette.middleware.gzip.", "starlette.middleware.wsgi.")
ERR = ("starlette.middleware.errors.ServerErrorMiddleware", "starlette.middleware.exceptions.ExceptionMiddleware")
OWN = {
    "starlette.middleware.sessions.SessionMiddleware": (b"set-cookie",),
    "starlette.middleware.cors.CORSMiddleware": (b"access-control-allow-origin", b"access-control-allow-credentials",
                                                 b"access-control-expose-headers", b"vary"),
}
REPLACES = {
    "starlette.middleware.cors.CORSMiddleware": (b"access-control-allow-origin", b"access-control-allow-credentials",
                                                 b"access-control-expose-headers", b"vary"),
}

SCRIPTS = [
    (START(), BODY("one")),
    (START(), BODY("one", True), BODY("two", True), BODY("three", False)),
    (Msg("http.response.debug", info=S("info")), START(trailers=S("trailers")), Msg("http.response.pathsend", path=S("path")), Msg("http.response.trailers", headers=hdrs("trl"))),
    (Msg("http.response.push", path=S("pushpath"), headers=hdrs("pushhdr")), START(), BODY(None)),
    (Msg("http.response.start", status=S("status")), BODY(None)),
    (),
]
WS = [(Msg("websocket.accept", headers=hdrs("wshdr")), Msg("websocket.send", text=S("text")), Msg("websocket.close", code=S("code"))),
      (Msg("websocket.http.response.start", status=S("status"), headers=hdrs()), Msg("websocket.http.response.body", body=S("one")))]


class Env38(MwEnv):
    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "handler":
            return ok(st, aw("other", name))
        return super().on_call(eng, st, name, args, kwargs, node)

    def aw_receive(self, eng, st, args, node):
        t = eng.fresh(st, "receive", (), node)
        st.mon["fromserver"] = st.mon.get("fromserver", ()) + (t,)
        return ok(st, t)

    def aw_other(self, eng, st, args, node):
        return ok(st, eng.fresh(st, "awaited", args, node))


def covers(eng, s, items, name, replaces):
    """the application's header segment survives (possibly without the class's own headers)"""
    for it in items:
        if it.tag == "rest":
            src = it.a[0]
            removed = []
            while is_t(src, "without"):
                removed.append(src.a[2])
                src = src.a[1]
            if src is S(name):
                return all(is_c(k) and cval(k) in replaces for k in removed), removed
    return False, None


def run(ctx):
    p = ctx.p
    ctx.rule("forward-exactly-once", "each application message is forwarded exactly once before the application continues")
    ctx.rule("fields-unchanged", "type, status, body and every other field of a forwarded message are the application's")
    ctx.rule("headers-kept", "the application's response headers survive; only the middleware's own headers are added or replaced")
    ctx.rule("nothing-of-its-own", "the middleware adds no message of its own to the application's response")
    ctx.rule("exception-leaves", "the application's exception is not swallowed")
    ctx.rule("receive-passes", "what the application receives is what the server delivered")
    for q in middleware_classes(p):
        if q.startswith(SKIP):
            continue
        ctx.oblige("middleware class")
        for typ, scripts in (("http", SCRIPTS), ("websocket", WS)):
            one(ctx, q, typ, scripts)
    ctx.need("middleware class", 7)
    ctx.need("message forwarded", 100)
    ctx.assume("the application uses the send it was given sequentially")


def one(ctx, q, typ, scripts):
    for label, cfg in configs(ctx.p, q):
        one_cfg(ctx, q, typ, scripts, label, cfg)


def one_cfg(ctx, q, typ, scripts, label, cfg):
    env = Env38(scripts=scripts, app_raise=True, receives=1)
    eng = ctx.engine(env)
    eng.join_sync = 6
    st0 = eng.start_state()
    reached = 0
    for st, inst in build(eng, st0, q, cfg(eng, st0)):
        scope = new_scope(eng, st, typ)
        for k, s, v in eng.run_call(st, inst, [scope, RECEIVE, SEND]):
            evs = s.mon.get("ev", ())
            idx = [i for i, e in enumerate(evs) if e[0] == "app"]
            if not idx:
                continue
            reached += 1
            rep = lambda rule, text: eng.report(rule, q, s, f"{typ}: {text}")
            if s.mon.get("rcvd", ()) != s.mon.get("fromserver", ()):
                rep("receive-passes", "the application received something else than the server's message")
            raised = [e for e in evs if e[0] == "appraise"]
            if idx != [0] and any(e[0] == "fwd" for e in evs[:idx[0]]):
                rep("nothing-of-its-own", "a message was sent before the application was called")
            seq = evs[idx[0] + 1:]
            i = 0
            while i < len(seq):
                e = seq[i]
                if e[0] == "appraise":
                    break
                if e[0] != "sent":
                    if e[0] == "fwd":
                        rep("nothing-of-its-own", f"extra message {stype(e[1])}")
                        break
                    i += 1
                    continue
                want = e[1]
                got = []
                i += 1
                while i < len(seq) and seq[i][0] == "fwd":
                    got.append(seq[i][1])
                    i += 1
                ctx.oblige("message forwarded")
                if len(got) != 1:
                    rep("forward-exactly-once", f"application message {stype(want)} forwarded {len(got)} times")
                    break
                check_fields(eng, s, q, want, got[0], rep)
            tail = [e for e in seq[i:] if e[0] == "fwd"]
            if raised and q not in ERR:
                if tail:
                    rep("nothing-of-its-own", "a message was sent after the application raised")
            if raised and q not in ERR and (k != "raise" or not (is_t(v, "exc") and v.a[2] == "app")):
                rep("exception-leaves", f"the application raised but the middleware ended with {k}")
            if not raised and k == "raise" and not header_raise(v):
                rep("exception-leaves", f"the application did not raise but the middleware raised {show(v)}")
    if not reached:
        raise AnchorError(f"{q}: no path reaches the inner application")


def header_raise(v):
    return False


def check_fields(eng, s, q, want, got, rep):
    w, g = dict(want.a[0]), dict(got.a[0])
    for key in set(w) | set(g):
        a, b = w.get(key), g.get(key)
        if key is C("headers"):
            if a is b:
                continue
            if a is None and b.tag == "snaplist":
                a = mk("snaplist", (NONE,))  # the optional field was omitted: an empty list
            if a is None or b is None or a.tag != "snaplist":
                rep("headers-kept", f"headers of {stype(want)} lost or invented")
                continue
            if stype(want) != "http.response.start" and not (q in OWN and stype(want).endswith("response.start")):
                if b.tag != "snaplist" or a.a[:-1] != b.a[:-1]:
                    rep("headers-kept", f"headers of {stype(want)} changed")
                continue
            if b.tag != "snaplist":
                rep("headers-kept", "header list replaced by something that does not contain the application's headers")
                continue
            allowed = OWN.get(q, ())
            repl = REPLACES.get(q, ())
            for it in a.a[:-1]:
                if it.tag == "rest":
                    okc, removed = covers(eng, s, b.a[:-1], it.a[0].a[1], repl)
                    if not okc:
                        rep("headers-kept", "application headers dropped" if removed is None else f"application headers removed: {[show(x) for x in removed]}")
            for it in b.a[:-1]:
                if it.tag == "tup" and it not in a.a[:-1]:
                    n = it.a[0]
                    if not (is_c(n) and cval(n) in allowed):
                        rep("headers-kept", f"foreign header {show(n)} added")
            continue
        if a is None or b is None:
            rep("fields-unchanged", f"field {show(key)} of {stype(want)} {'added' if a is None else 'dropped'}")
            continue
        if eng.eq_truth(s, a, b) is not True:
            rep("fields-unchanged", f"field {show(key)} of {stype(want)} changed to {show(b)}")
