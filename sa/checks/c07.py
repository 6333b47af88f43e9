"""Path analysis of exception handling around an application (ExceptionMiddleware and the wrapper it shares with routes).

ExceptionMiddleware is built with representative handler tables (status code, several classes of one hierarchy, sync and
async handlers) and interpreted around an application that raises, before or after the response start, an exception of a
known class (HTTPException with symbolic status, builtin exceptions, WebSocketException, cancellation).  Path facts decide
which handler the specification selects (status first, then the most specific class); the events on the path must be
exactly: that handler once, with (connection, exception), async awaited and sync in the thread pool, its response sent
with the wrapper's own channel; or the same exception leaving; or RuntimeError when the response has already started.
"""
from ..mw import *
from .common import *

Q = "starlette.middleware.exceptions.ExceptionMiddleware"
HTTP = "starlette.exceptions.HTTPException"
WS = "starlette.exceptions.WebSocketException"


class EnvExc(MwEnv):
    """the application raises a prepared exception after n messages; handlers are symbolic callables"""
    exact_exc = True

    def note_empty(self, src):
        return mentions(src, S("exchdr"))      # a path on which the exception's headers turn out to be an empty mapping

    def __init__(self, ctx, script, asyncs=(), none=(), thread_exc=True):
        super().__init__(scripts=[tuple(script)])
        self.ctx, self.asyncs, self.none = ctx, set(asyncs), set(none)
        self.exc = None
        self.sendfail = False

    def aw_send(self, eng, st, args, node):
        r = super().aw_send(eng, st, args, node)
        if self.sendfail and not st.mon.get("failed"):
            for k, s, v in r:
                s.note(eng.loc(node), "the server's send fails")
                s.mon["failed"] = True
                self.ev(s, "appraise", self.exc)
            return [("raise", s, self.exc) for k, s, v in r]
        return r

    def aw_app(self, eng, st, args, node):
        outs = []
        for k, s, v in super().aw_app(eng, st, args, node):
            if k == "ok" and self.exc is not None and not self.sendfail:
                s.note(eng.loc(node), f"inner application raises {show(self.exc)}")
                self.ev(s, "appraise", self.exc)
                outs.append(("raise", s, self.exc))
            else:
                outs.append((k, s, v))
        return outs

    def on_ext(self, eng, st, q, args, kwargs, node):
        if q.endswith("iscoroutinefunction") and args and is_t(args[0], "sym"):
            return ok(st, B(args[0].a[1] in self.asyncs))
        if q.endswith("iscoroutinefunction") and args and is_t(args[0], "attr") and args[0].a[2] == "__call__":
            return ok(st, FALSE)
        return super().on_ext(eng, st, q, args, kwargs, node)

    def thread_call(self, eng, st, args, kwargs, node):
        f, rest = args[0], list(args[1:])
        if f.tag == "part":
            rest = list(f.a[1]) + rest
            f = f.a[0]
        if is_t(f, "sym"):
            return ok(st, aw("thread", f, *rest))
        prev = st.mon.get("inthread", False)
        st.mon["inthread"] = True
        r = eng.call(st, f, rest, kwargs, node)
        for k, s, v in r:
            s.mon["inthread"] = prev
        return [(k, s, aw("value", v) if k == "ok" else v) for k, s, v in r]

    def aw_value(self, eng, st, args, node):
        return ok(st, args[0])

    def aw_thread(self, eng, st, args, node):
        return self.handled(eng, st, args[0].a[1], args[1:], "thread", node)

    def handled(self, eng, st, name, args, how, node):
        self.ev(st, "handler", name, tuple(args), how)
        s2 = st.fork()
        self.ev(s2, "handler-raises")
        out = [("raise", s2, T("exc", "builtins.ZeroDivisionError", "handler"))]
        return out + ok(st, NONE if name in self.none else S("resp_" + name))

    def on_call(self, eng, st, name, args, kwargs, node):
        if name.startswith("h_"):
            if name in self.asyncs:
                return ok(st, aw("hasync", C(name), *args))
            return self.handled(eng, st, name, args, "thread" if st.mon.get("inthread") else "direct", node)
        if name.startswith("resp_"):
            return ok(st, aw("resp", C(name), *args))
        return super().on_call(eng, st, name, args, kwargs, node)

    def aw_hasync(self, eng, st, args, node):
        return self.handled(eng, st, cval(args[0]), args[1:], "await", node)

    def aw_resp(self, eng, st, args, node):
        self.ev(st, "resp", cval(args[0]), *args[1:])
        outs = [("ok", st, NONE)]
        for m in (START(status=S("hstatus")), BODY("hbody")):
            nx = []
            for k, s, v in outs:
                if k != "ok" or len(args) != 4:
                    nx.append((k, s, v))
                    continue
                ref = m.make(eng, s, 9)
                nx.extend(eng.run_call(s, args[3], [ref]))
            outs = nx
        return outs


def prime(st, names):
    for n in names:
        st.facts[S(n)] = Fact(nota=frozenset(["functools.partial"]), tr=True, ne=frozenset([NONE]))
        st.facts[T("callable", S(n))] = Fact(tr=True)
        st.facts[S("resp_" + n)] = Fact(tr=True, ne=frozenset([NONE]))


TABLES = [
    ("no handlers", {}),
    ("status and class", {404: "h_404", "builtins.LookupError": "h_lookup"}),
    ("hierarchy, general first", {"builtins.Exception": "h_any", "builtins.LookupError": "h_lookup", 404: "h_404"}),
    ("HTTPException replaced", {HTTP: "h_http", 404: "h_404", "builtins.KeyError": "h_key", "builtins.LookupError": "h_lookup", WS: "h_ws"}),
]
EXCS = [("http", "builtins.KeyError"), ("http", "builtins.ValueError"), ("http", HTTP), ("http", "ext.Cancelled"), ("http", "builtins.KeyboardInterrupt"),
        ("websocket", WS), ("websocket", "builtins.KeyError"), ("websocket", HTTP)]


def run(ctx):
    ctx.rule("right-handler", "the handler for the status code, else for the most specific class, is the one called")
    ctx.rule("handler-call", "the handler is called exactly once with (connection, exception); coroutine functions awaited, others in the thread pool")
    ctx.rule("response-sent", "the handler's response is sent exactly once with the request's scope, receive and the wrapped send")
    ctx.rule("propagates", "an exception without handler, or not derived from Exception, leaves unchanged and nothing is sent")
    ctx.rule("already-started", "after the response start a handled exception becomes RuntimeError caused by it; nothing more is sent")
    ctx.rule("default-http", "the default HTTPException answer has the exception's status, detail and headers (no body for 204/304)")
    ctx.rule("default-ws", "the default WebSocketException answer is one close with its code and reason")
    for label, table in TABLES:
        for typ, exc in EXCS:
            for asy in (False, True):
                for script in (((), (START(),), (START(), BODY("one", True))) if typ == "http" else ((), (Msg("websocket.accept"),))):
                    one(ctx, label, table, typ, exc, asy, script)
                if typ == "http":
                    one(ctx, label, table, typ, exc, asy, (START(),), True)
    ctx.need("handler path", 30)
    ctx.need("propagating path", 10)
    ctx.need("already started path", 10)
    ctx.need("default answer", 4)


def key_value(p, k):
    if isinstance(k, int):
        return C(k)
    return Cls(p.cls(k)) if k.startswith("starlette.") else Ext(k)


def one(ctx, label, table, typ, exc, asy, script, sendfail=False):
    names = sorted(set(table.values()))
    env = EnvExc(ctx, script, asyncs=names if asy else (), none=("h_ws", "h_key"))
    env.sendfail = sendfail
    eng = ctx.engine(env)
    st0 = eng.start_state()
    prime(st0, names)
    handlers = eng.new_dict(st0, "cfg:handlers", {key_value(eng.p, k): S(v) for k, v in table.items()})
    lab = f"{label}, {typ} {exc.rsplit('.', 1)[1]}{' async' if asy else ''} {'while sending' if sendfail else 'after'} {len(script)} messages: "
    for st, ref in build(eng, st0, Q, {"app": APP, "handlers": handlers, "debug": FALSE}):
        st.facts[S("detail")] = Fact(ne=frozenset([NONE]), isa=frozenset(["builtins.str"]))
        if exc == HTTP:
            r = [o for o in eng.call(st, Cls(eng.p.cls(HTTP)), [], {"status_code": S("code"), "detail": S("detail"), "headers": S("exchdr")}, "exc")]
        elif exc == WS:
            r = eng.call(st, Cls(eng.p.cls(WS)), [], {"code": S("wscode"), "reason": S("reason")}, "exc")
        else:
            r = [("ok", st, T("exc", exc, "app"))]
        for k0, s0, ev in r:
            if k0 != "ok":
                continue
            env.exc = ev
            scope = new_scope(eng, s0, typ)
            for k, s, v in eng.run_call(s0, ref, [scope, RECEIVE, SEND]):
                ctx.oblige("path")
                check(ctx, eng, s, k, v, ev, exc, typ, table, asy, script, scope, lambda rule, t: eng.report(rule, Q, s, lab + t))


def mro(p, exc):
    if exc.startswith("starlette."):
        return [x for x in p.cls(exc).mro_names()] + ["builtins.Exception"]
    import builtins
    c = getattr(builtins, exc.rsplit(".", 1)[1], None)
    return ["builtins." + x.__name__ for x in c.__mro__] if c else []


def check(ctx, eng, s, k, v, ev, exc, typ, table, asy, script, scope, rep):
    evs = s.mon.get("ev", ())
    hs = [e for e in evs if e[0] == "handler"]
    i = max((n for n, e in enumerate(evs) if e[0] == "appraise"), default=None)
    if i is None:
        rep("propagates", "the application is not called")
        return
    after = [e[1] for e in evs[i:] if e[0] == "fwd"]
    names = mro(eng.p, exc)
    want = None
    if exc == HTTP and 404 in table:
        t = eng.truth(s, eqt(S("code"), C(404)))
        if t is None:
            rep("right-handler", "the path does not depend on the status code")
            return
        if t:
            want = table[404]
    if want is None and "builtins.Exception" in names:
        full = {**{HTTP: "default-http", WS: "default-ws"}, **table}
        for c in names:
            if c in full:
                want = full[c]
                break
    if want is None:
        ctx.oblige("propagating path")
        if k != "raise" or v is not ev or after or hs:
            rep("propagates", f"ends with {k} {show(v) if v is not None else ''}, sent {[stype(x) for x in after]}, handlers {[h[1] for h in hs]}")
        return
    started = typ == "http" and len(script) > 0
    if started:
        ctx.oblige("already started path")
        cause = s.mon.get("cause")
        if cause is not None and cause[0] is v and cause[1] is not ev:
            rep("already-started", "the RuntimeError does not show the original exception")
        if hs or after or k != "raise" or eng.type_of(s, v) != "builtins.RuntimeError" and not (is_t(v, "exc") and v.a[1] == "builtins.RuntimeError"):
            rep("already-started", f"ends with {k} {show(v)} {eng.type_of(s, v)}, sent {[stype(x) for x in after]}, handlers {[h[1] for h in hs]}")
        return
    if want.startswith("default"):
        ctx.oblige("default answer")
        if hs:
            rep("right-handler", f"custom handler {[h[1] for h in hs]} called, none applies")
        elif want == "default-ws":
            if k != "ok" or [stype(x) for x in after] != ["websocket.close"]:
                rep("default-ws", f"{k}, sent {[stype(x) for x in after]}")
            elif sfield(after[0], "code") is not S("wscode") or sfield(after[0], "reason") not in (S("reason"), C("")):
                rep("default-ws", f"closed with {show(sfield(after[0], 'code', NONE))} / {show(sfield(after[0], 'reason', NONE))}")
        elif typ == "http":
            default_http(ctx, eng, s, k, v, after, rep)
        return
    ctx.oblige("handler path")
    if [h[1] for h in hs] != [want]:
        rep("right-handler", f"called {[h[1] for h in hs]}, specification selects {want}")
        return
    _, name, args, how = hs[0]
    if how != ("await" if asy else "thread"):
        rep("handler-call", f"{'coroutine' if asy else 'plain'} handler run by {how}")
    cq = "starlette.requests.Request" if typ == "http" else "starlette.websockets.WebSocket"
    if len(args) != 2 or args[1] is not ev or args[0].tag != "ref" or eng.type_of(s, args[0]) != cq:
        rep("handler-call", "not called with (connection, exception)")
    rs = [e for e in evs if e[0] == "resp"]
    if any(e[0] == "handler-raises" for e in evs):
        if k != "raise" or v is not T("exc", "builtins.ZeroDivisionError", "handler") or rs or after:
            rep("propagates", "an exception of the handler itself does not leave unchanged")
        return
    if name in ("h_ws", "h_key"):
        if rs or after or k != "ok":
            rep("response-sent", "a handler without response leads to a message")
        return
    if len(rs) != 1 or rs[0][1] != "resp_" + name or len(rs[0]) != 5 or rs[0][2] is not scope or rs[0][3] is not RECEIVE or k != "ok":
        rep("response-sent", f"the handler's response is called {len(rs)} times with other arguments than (scope, receive, send)")
    elif [stype(x) for x in after] != ["http.response.start", "http.response.body"]:
        rep("response-sent", f"messages that reach the server: {[stype(x) for x in after]}")


def default_http(ctx, eng, s, k, v, after, rep):
    if k == "raise":
        rep("default-http", f"raises {show(v)}")
        return
    if [stype(x) for x in after] != ["http.response.start", "http.response.body"]:
        rep("default-http", f"sent {[stype(x) for x in after]}")
        return
    if eng.known(s, sfield(after[0], "status")) is not eng.known(s, S("code")):
        rep("default-http", f"status {show(sfield(after[0], 'status'))}")
    body = sfield(after[1], "body", C(b""))
    nobody = any(eng.truth(s, eqt(S("code"), C(n))) is True for n in (204, 304))
    if nobody:
        if body is not C(b""):
            rep("default-http", f"body {show(body)} for a status without body")
    elif all(eng.truth(s, eqt(S("code"), C(n))) is False for n in (204, 304)):
        if not touches(eng, body, S("detail")):
            rep("default-http", f"body {show(body)} is not the detail")
    else:
        rep("default-http", "204 and 304 are not distinguished")
    h = sfield(after[0], "headers")
    if eng.truth(s, eqt(S("exchdr"), NONE)) is not True and not touches(eng, h, S("exchdr")) and not s.mon.get("empty"):
        rep("default-http", "the exception's headers are lost")
