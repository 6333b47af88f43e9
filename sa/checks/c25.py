"""Path analysis of BaseHTTPMiddleware over dispatch programs, applications and server schedules.

Representative dispatch functions (a client program: pass through, read the body, read the stream wholly or in part, catch the
application's exception, answer without or instead of the application, change a header, raise) are interpreted together with
the middleware around an application that receives and sends symbolic messages and may raise between any two of them.  The
task group, the event and the rendezvous channel are replaced by a sequentialised model (sa/tasks.py) in which the
application's task runs ahead of the middleware, or finds at any send or receive that the middleware has already finished.
On every path the forwarded response, the request body the application sees, and what leaves the middleware are compared
with the specification.
"""
from ..tasks import *
from .c02 import entry
from .common import *

Q = "starlette.middleware.base.BaseHTTPMiddleware"
CLIENT25 = ASYNC_SRC + '''
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import Response

class Pass(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        return await call_next(request)

class Body(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        e_body(await request.body())
        return await call_next(request)

class Stream(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        async for chunk in request.stream():
            e_chunk(chunk)
        return await call_next(request)

class Partial(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        async for chunk in request.stream():
            e_chunk(chunk)
            break
        return await call_next(request)

class Catch(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        try:
            return await call_next(request)
        except Exception as exc:
            e_caught(exc)
            return Response(b"own", status_code=599)

class Own(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        return Response(b"own", status_code=599)

class Instead(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        await call_next(request)
        return Response(b"own", status_code=599)

class Header(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        response = await call_next(request)
        response.headers["x-added"] = "1"
        return response

class RaiseBefore(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        raise own_error()

class RaiseAfter(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        await call_next(request)
        raise own_error()

async def func(request, call_next):
    return await call_next(request)

def build(name):
    if name == "Func":
        return BaseHTTPMiddleware(app, dispatch=func)
    return {"Pass": Pass, "Body": Body, "Stream": Stream, "Partial": Partial, "Catch": Catch, "Own": Own, "Instead": Instead, "Header": Header, "RaiseBefore": RaiseBefore, "RaiseAfter": RaiseAfter}[name](app)
'''
DISPATCH = ["Pass", "Func", "Body", "Stream", "Partial", "Catch", "Own", "Instead", "Header", "RaiseBefore", "RaiseAfter"]
EMPTYHDR = Msg("http.response.start", status=S("status"))
SCRIPTS = [
    [START(), BODY("b0")],
    [START(), BODY("b0", True), BODY("b1", True), BODY("b2", False)],
    [START(), BODY("b0", True), BODY(None)],
    [EMPTYHDR, BODY(None)],
    [Msg("http.response.debug", info=S("dbginfo")), START(), BODY("b0", False)],
    [START(), BODY("b0", False), BODY("late", False)],
    [],
]
OWNERR = T("exc", "builtins.ValueError", "dispatch")
APPERR = T("exc", "builtins.KeyError", "app")


class Env25(TaskEnv):
    def __init__(self, ctx, scripts, server, app_raise, receives):
        super().__init__(scripts=scripts, app_raise=app_raise, receives=receives)
        self.ctx, self.server = ctx, server
        self.final = False

    def app_exc(self, eng, st, node):
        return APPERR

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "own_error":
            return ok(st, OWNERR)
        if name.startswith("e_"):
            self.ev(st, name, *args)
            return ok(st, NONE)
        return super().on_call(eng, st, name, args, kwargs, node)

    def aw_app(self, eng, st, args, node):
        st.mon["inapp"] = True
        outs = []
        for k, s, v in super().aw_app(eng, st, args, node):
            if k == "ok" and self.final and len(args) == 3:
                for k2, s2, v2 in eng.run_call(s, args[1], []):
                    s2.mon["inapp"] = False
                    if k2 == "ok":
                        s2.mon["last"] = v2
                        outs.append((k, s2, v))
                    else:
                        self.ev(s2, "rcvraise", v2)
                        outs.append((k2, s2, v2))
                continue
            s.mon["inapp"] = False
            outs.append((k, s, v))
        return outs

    def on_receive(self, eng, st, node):
        outs = []
        if self.in_task(st) and st.mon.get("inapp"):
            s2 = st.fork()
            s2.note(eng.loc(node), "the client stays silent")
            self.go_early(eng, s2, "receive", node)
            for s3 in self.wake(eng, s2, node):
                if self.cancelled_now(s3):
                    outs.extend(self.do_cancel(eng, s3, node))
                else:
                    eng.report("released", Q, s3, "an application waiting in receive() is not woken up when the response is complete", node)
        if st.mon.get("early"):
            return outs
        n = st.mon.get("nrcv", 0)
        st.mon["nrcv"] = n + 1
        if n < len(self.server):
            nm, more = self.server[n]
            d = {C("type"): C("http.request"), C("body"): S(nm) if nm else C(b"")}
            if more is not None:
                d[C("more_body")] = B(more)
            st.note(eng.loc(node), f"server delivers body {nm} more={more}")
            m = eng.new_dict(st, f"reqmsg{n}", d)
        else:
            st.note(eng.loc(node), "server delivers disconnect")
            m = eng.new_dict(st, f"reqmsg{n}", {C("type"): C("http.disconnect")})
            if n > len(self.server):
                eng.report("request-body", Q, st, "receive called again after the disconnect", node)
        outs.append(("ok", st, m))
        return outs

    def starved(self, eng, st, node):
        return ("response", Q, st, "waits for a message of the application that is never sent", node)


SERVERS = [[("c1", True), ("c2", False)], [("c1", None)], [(None, False)], [("c1", True), (None, False)], []]


def run(ctx):
    ctx.rule("response", "the response returned by call_next and returned by dispatch reaches the server: same status, headers and body bytes in order, one start and one final body message")
    ctx.rule("own-response", "a response made by dispatch is sent instead of the application's")
    ctx.rule("request-body", "the application receives the request body dispatch did not consume (all of it after body()), then a disconnect")
    ctx.rule("exception", "the application's exception reaches dispatch through call_next, or leaves the middleware; exactly once, never swallowed, and not raised again after dispatch handled it")
    ctx.rule("truncated", "a response the application failed to complete is not completed on its behalf")
    ctx.rule("released", "when the response is complete an application still sending or receiving is released")
    ctx.rule("streams-closed", "the message channel is closed on every exit")
    ctx.client(CLIENT25)
    for name in DISPATCH:
        for i, sc in enumerate(SCRIPTS):
            one(ctx, name, i, sc, SERVERS[1], 0, True)
        for j, server in enumerate(SERVERS):
            one(ctx, name, 1, SCRIPTS[1], server, 3 if j == 0 else 2, False)
        one(ctx, name, 1, SCRIPTS[1], SERVERS[0], 2, False, True)
        one(ctx, name, 5, SCRIPTS[5], SERVERS[0], 0, False, True)
    ctx.need("response forwarded", 40)
    ctx.need("application raised", 40)
    ctx.need("request message seen", 30)
    ctx.need("middleware already finished", 10)
    ctx.assume("the application's messages are an optional debug message, one start and body messages; other message types are outside the claim")


def one(ctx, name, i, sc, server, receives, app_raise, final=False):
    env = Env25(ctx, [sc], server, app_raise, receives)
    env.final = final
    eng = ctx.engine(env)
    eng.exact = 8
    st0 = eng.start_state()
    for st, inst in entry(eng, st0, "build", [C(name)]):
        scope = new_scope(eng, st, "http")
        st.facts[S("dbginfo")] = Fact(tr=True, ne=frozenset([NONE]))
        for k, s, v in eng.run_call(st, inst, [scope, RECEIVE, SEND]):
            ctx.oblige("path")
            label = f"dispatch {name}, script {i}: "
            rep = lambda rule, text: eng.report(rule, Q, s, label + text)
            judge(ctx, eng, s, k, v, name, sc, server, rep)


def exc_class(s, v):
    if v.tag == "ref" and v in s.heap:
        return getattr(s.heap[v].cls, "qual", None)
    return v.a[1] if is_t(v, "exc") else None


def field(eng, s, ref, name):
    return s.heap[ref].d.get(name)


def judge(ctx, eng, s, k, v, name, sc, server, rep):
    evs = s.mon.get("ev", ())
    kinds = [e[0] for e in evs]
    if s.mon.get("early_need"):
        ctx.oblige("middleware already finished")
    for e in evs:
        if e[0] == "hang":
            rep("released", f"an application still waiting in {'receive' if e[1] == 'receive' else 'send'}() when the response is complete is never released")
            return
    for e in evs:
        if e[0] == "rcvraise" and not (is_t(e[1], "exc") and e[1].a[1] == "ext.Cancelled"):
            rep("request-body", f"receive() raises {exc_class(s, e[1])} in the application")
            return
    for snd, rcv in s.mon.get("chans", ()):
        ch = field(eng, s, rcv, "chan")
        if field(eng, s, ch, "recv_closed") is not TRUE or field(eng, s, ch, "send_closed") is not TRUE:
            rep("streams-closed", "the channel is left open")
    fw = [e[1] for e in evs if e[0] == "fwd"]
    deliv = [e[1] for e in evs if e[0] == "delivered"]
    raised = any(e[0] == "appraise" for e in evs)
    early = s.mon.get("early")
    napp = kinds.count("app")
    called = name not in ("Own", "RaiseBefore")
    if k == "raise" and v.tag == "t" and v.a[0] == "exc" and v.a[1] == "builtins.ExceptionGroup":
        rep("exception", "an exception group leaves the middleware instead of the exception")
        return
    if napp != (1 if called else 0) and not (name in ("Body", "Stream", "Partial") and k == "raise"):
        rep("response", f"the application is called {napp} times")
        return
    if early == "receive" and "last" in s.mon and stype(snap(eng, s, s.mon["last"])) != "http.disconnect":
        rep("released", "an application receiving after the response is complete gets something else than a disconnect")
    # what the application received
    seen(ctx, eng, s, name, server, rep)
    dk = [stype(m) for m in deliv]
    started = "http.response.start" in dk
    if name == "RaiseBefore" or (name == "RaiseAfter" and started):
        if k != "raise" or v is not OWNERR or fw:
            rep("exception", f"dispatch's own exception ends as {k} {show(v)}")
        return
    if name in ("Body", "Stream", "Partial") and napp == 0:
        if exc_class(s, v) != "starlette.requests.ClientDisconnect":
            rep("exception", f"raises {show(v)} before the application was called")
        return
    caught = [e[1] for e in evs if e[0] == "e_caught"]
    if raised:
        ctx.oblige("application raised")
    if called and not started:
        # no response: call_next must have raised
        if raised and name == "Catch":
            if caught != [APPERR]:
                rep("exception", f"call_next raises {[show(x) for x in caught]}")
            if k != "ok":
                rep("exception", "the exception dispatch caught from call_next and answered is raised again")
            own(eng, s, fw, rep)
            return
        if name == "Catch":
            if not caught:
                rep("exception", "call_next returned although the application sent no response")
            return
        if k != "raise" or fw:
            rep("exception", "the middleware finishes although the application sent no response")
        elif raised and v is not APPERR:
            rep("exception", f"the application's exception leaves as {show(v)}")
        return
    if name in ("Own", "Instead"):
        own(eng, s, fw, rep)
        if raised and (k != "raise" or v is not APPERR):
            rep("exception", "the application's exception is swallowed")
        if not raised and k == "raise":
            rep("own-response", f"raises {show(v)}")
        return
    # the application's response
    want, done = [], False
    dbg = [m for m in deliv if stype(m) == "http.response.debug"]
    start = next(m for m in deliv if stype(m) == "http.response.start")
    for m in deliv:
        if stype(m) == "http.response.body":
            want.append(sfield(m, "body") or C(b""))
            if (sfield(m, "more_body") or FALSE) is FALSE:
                done = True
                break
    ctx.oblige("response forwarded")
    fk = [stype(m) for m in fw]
    if fk[:1] == ["http.response.debug"]:
        if not dbg or sfield(fw[0], "info") is not sfield(dbg[0], "info"):
            rep("response", "debug message changed or invented")
        fw = fw[1:]
    elif dbg:
        rep("response", "the debug message is lost")
    if not fw or stype(fw[0]) != "http.response.start" or any(stype(m) != "http.response.body" for m in fw[1:]):
        rep("response", f"forwarded {fk}")
        return
    if sfield(fw[0], "status") is not sfield(start, "status"):
        rep("response", f"status forwarded as {show(sfield(fw[0], 'status'))}")
    headers(eng, s, name, start, fw[0], rep)
    got = [x for x in ((sfield(m, "body") or C(b"")) for m in fw[1:]) if x is not C(b"")]
    wantb = [x for x in want if x is not C(b"") and eng.truth(s, x) is not False]
    gotb = [x for x in got if eng.truth(s, x) is not False]
    if gotb != wantb:
        rep("response", f"body {[show(x) for x in wantb]} forwarded as {[show(x) for x in gotb]}")
    mores = [(sfield(m, "more_body") or FALSE) for m in fw[1:]]
    if done:
        if not mores or mores[-1] is not FALSE or FALSE in mores[:-1]:
            rep("response", f"body messages with more_body {[show(x) for x in mores]}")
    elif FALSE in mores:
        if raised:
            rep("truncated", "the application fails in the middle of its response and the response is completed as if it were whole")
    if raised:
        if k != "raise" or v is not APPERR:
            rep("exception", f"the application's exception after the response started ends as {k} {show(v)}")
    elif k == "raise":
        rep("response", f"raises {show(v)}")


def headers(eng, s, name, start, got, rep):
    h0, h1 = sfield(start, "headers"), sfield(got, "headers")
    a = list(h0.a[:-1]) if h0 is not None and h0.tag == "snaplist" else []
    b = list(h1.a[:-1]) if h1 is not None and h1.tag == "snaplist" else []
    if name == "Header":
        if Tup((C(b"x-added"), C(b"1"))) not in b:
            rep("response", "the header set on the returned response is lost")
        b = [x for x in b if x.tag != "tup"]
        b = [eng.rest(x.a[0].a[1]) if x.tag == "rest" and is_t(x.a[0], "without") and x.a[0].a[2] is C(b"x-added") else x for x in b]
        a = [x for x in a]
    if a != b:
        rep("response", f"headers {[show(x) for x in a]} forwarded as {[show(x) for x in b]}")


def own(eng, s, fw, rep):
    if [stype(m) for m in fw] != ["http.response.start", "http.response.body"] or sfield(fw[0], "status") is not C(599) or sfield(fw[1], "body") is not C(b"own"):
        rep("own-response", f"dispatch's response is sent as {[(stype(m)) for m in fw]}")


def seen(ctx, eng, s, name, server, rep):
    rcvd = s.mon.get("rcvd", ())
    if not rcvd:
        return
    chunks = [S(nm) for nm, more in server if nm]
    complete = bool(server)
    used = [e[1] for e in s.mon.get("ev", ()) if e[0] == "e_chunk"]
    if name == "Body":
        want = None
    elif name == "Stream":
        want = []
    elif name == "Partial":
        want = [c for c in chunks if c not in used]
    else:
        want = chunks
    void = {y for t, f in s.facts.items() if f.tr is False or f.eq is C(b"") for y in parts(t)}
    live = lambda x: x is not C(b"") and eng.truth(s, x) is not False and x not in void
    got, ended, disc = [], False, False
    for v in rcvd:
        ctx.oblige("request message seen")
        sn = snap(eng, s, v)
        t = stype(sn)
        if t == "http.disconnect":
            if not disc and not ended and complete and not s.mon.get("early"):
                rep("request-body", "disconnect delivered before the end of the body")
            disc = True
            continue
        if t != "http.request" or disc or ended:
            rep("request-body", f"receives {t} after {'the disconnect' if disc else 'the end of the body'}")
            return
        got.append(sfield(sn, "body") or C(b""))
        m = sfield(sn, "more_body") or FALSE
        if m is FALSE:
            ended = True
    got = [x for x in got if live(x)]
    if want is None:
        want = [x for x in chunks if live(x)]
        flat = []
        for x in got:
            flat.extend(parts(x))
        flat = [x for x in flat if live(x)]
        if flat != want[:len(flat)] or (ended and flat != want):
            rep("request-body", f"after body() the application receives {[show(x) for x in got]}")
        return
    want = [x for x in want if live(x)]
    if got != want[:len(got)] or (ended and got != want):
        rep("request-body", f"the application receives {[show(x) for x in got]} of {[show(x) for x in want]}")


def parts(x):
    if is_t(x, "concat") or is_t(x, "add"):
        return [y for z in x.a[1:] if z is not None for y in parts(z)]
    if is_t(x, "joined"):
        return [y for z in x.a[1:] if isinstance(z, V) for y in parts(z)]
    return [x]
