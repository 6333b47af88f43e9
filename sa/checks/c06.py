"""Path and taint analysis of the server-error middleware.

ServerErrorMiddleware is built with debug on/off and no/sync/async handler and interpreted around an application that
raises before or after its response start.  Every path must end by raising the application's own exception; exactly one
complete response (the handler's, or a 500) is sent when nothing was started and nothing otherwise; in non-debug mode the
built-in answer is a constant.  In debug mode every non-constant piece of the HTML page must be under an html escape or be
a number, and is otherwise reported with the source of the piece; plain text goes out as text/plain.
"""
from ..mw import *
from .common import *
from .c07 import EnvExc, prime

Q = "starlette.middleware.errors.ServerErrorMiddleware"
EXC = T("exc", "builtins.KeyError", "app")


def run(ctx):
    ctx.rule("re-raised", "the application's exception always leaves the middleware, whatever the handler or the debug page did")
    ctx.rule("one-answer", "a 500 answer (or the handler's response) is sent exactly once if and only if no response had started")
    ctx.rule("handler-call", "the handler gets (request, exception) once; coroutine functions awaited, others in the thread pool; not used in debug mode")
    ctx.rule("no-leak", "without debug the built-in answer is a constant text")
    ctx.rule("escaped", "the debug HTML page contains exception data only html-escaped")
    ctx.rule("silent", "without an exception nothing is added")
    for debug in (False, True):
        for handler in (None, "sync", "async"):
            for script in ((), (START(),), (START(), BODY("one", True)), (START(), BODY("one")), (Msg("http.response.debug", info=S("info")),)):
                one(ctx, debug, handler, script)
            one(ctx, debug, handler, (START(),), True)
    ctx.need("answer", 6)
    ctx.need("already started", 12)
    ctx.need("html piece", 3)


def one(ctx, debug, handler, script, sendfail=False):
    env = EnvExc(ctx, script, asyncs=("h_err",) if handler == "async" else ())
    env.sendfail = sendfail
    eng = ctx.engine(env)
    st0 = eng.start_state()
    prime(st0, ["h_err"])
    lab = f"debug={debug} handler={handler} {'while sending' if sendfail else 'after'} {[m.typ for m in script]}: "
    for st, ref in build(eng, st0, Q, {"app": APP, "handler": S("h_err") if handler else NONE, "debug": B(debug)}):
        for exc in (EXC,) if sendfail else (EXC, None):
            env.exc = exc
            s0 = st.fork()
            scope = new_scope(eng, s0)
            for k, s, v in eng.run_call(s0, ref, [scope, RECEIVE, SEND]):
                ctx.oblige("path")
                check(ctx, eng, s, k, v, exc, debug, handler, script, scope, lambda rule, t: eng.report(rule, Q, s, lab + t))


def check(ctx, eng, s, k, v, exc, debug, handler, script, scope, rep):
    evs = s.mon.get("ev", ())
    i = max((n for n, e in enumerate(evs) if e[0] == "appraise"), default=None)
    hs = [e for e in evs if e[0] == "handler"]
    if exc is None:
        if k != "ok" or hs or len([e for e in evs if e[0] == "fwd"]) != len(script):
            rep("silent", f"application returned normally: {k}, handlers {len(hs)}")
        return
    if i is None:
        rep("re-raised", "the application is not called")
        return
    after = [e[1] for e in evs[i:] if e[0] == "fwd"]
    hraise = any(e[0] == "handler-raises" for e in evs)
    if hraise:
        if k != "raise":
            rep("re-raised", "no exception leaves although the handler itself failed")
        return
    if k != "raise" or v is not exc:
        rep("re-raised", f"ends with {k} {show(v)}")
    started = any(m.typ == "http.response.start" for m in script)
    use_handler = handler and not debug
    rs = [e for e in evs if e[0] == "resp"]
    if started:
        ctx.oblige("already started")
        if after or rs:
            rep("one-answer", f"messages after the response started: {[stype(x) for x in after]}")
        return
    ctx.oblige("answer")
    if hs and not use_handler:
        rep("handler-call", "handler used although " + ("debug is on" if debug else "none is configured"))
    if use_handler:
        if len(hs) != 1:
            rep("handler-call", f"handler called {len(hs)} times")
            return
        _, name, args, how = hs[0]
        if how != ("await" if handler == "async" else "thread"):
            rep("handler-call", f"{handler} handler run by {how}")
        if len(args) != 2 or args[1] is not exc or args[0].tag != "ref" or eng.type_of(s, args[0]) != "starlette.requests.Request":
            rep("handler-call", "not called with (request, exception)")
        if len(rs) != 1 or rs[0][2] is not scope or rs[0][3] is not RECEIVE or [stype(x) for x in after] != ["http.response.start", "http.response.body"]:
            rep("one-answer", f"handler response sent {len(rs)} times, messages {[stype(x) for x in after]}")
        return
    if [stype(x) for x in after] != ["http.response.start", "http.response.body"]:
        rep("one-answer", f"messages sent: {[stype(x) for x in after]}")
        return
    if sfield(after[0], "status") is not C(500):
        rep("one-answer", f"status {show(sfield(after[0], 'status'))}")
    body = sfield(after[1], "body", C(b""))
    h = sfield(after[0], "headers")
    ctype = [cval(it.a[1]) for it in h.a[:-1] if it.tag == "tup" and it.a[0] is C(b"content-type") and is_c(it.a[1])]
    if not debug:
        if not is_c(body) or not cval(body) or b"KeyError" in cval(body):
            rep("no-leak", f"body {show(body)[:200]}")
        for it in h.a[:-1]:
            if it.tag != "tup" or mentions(it.a[1], exc) or is_c(it.a[1]) and b"KeyError" in cval(it.a[1]):
                rep("no-leak", f"header {show(it)}")
        return
    if ctype and ctype[0].startswith(b"text/html"):
        for t in pieces(eng, body, set()):
            ctx.oblige("html piece")
            if not safe(t):
                rep("escaped", f"unescaped {show(t)[:160]}")
    elif not (ctype and ctype[0].startswith(b"text/plain")):
        rep("escaped", f"debug text sent as {ctype}")


def resolve(eng, t, seen=None):
    """all terms a (loop-joined) term may stand for"""
    seen = set() if seen is None else seen
    if is_t(t, "lv"):
        if t.a[1:4] in seen:
            return []
        seen.add(t.a[1:4])
        return [y for x in eng.lvvals.get(t.a[1:4], {t}) for y in resolve(eng, x, seen)]
    return [t]


def pieces(eng, t, seen):
    """the non-constant parts a text term is concatenated from (through loop-accumulated variables)"""
    if t in seen:
        return []
    seen.add(t)
    if is_c(t):
        return []
    if is_t(t, "lv") and eng.lvvals.get(t.a[1:4]):
        return [y for x in eng.lvvals[t.a[1:4]] for y in pieces(eng, x, seen)]
    if is_t(t, "m") and t.a[1] in ("encode", "decode"):
        return pieces(eng, t.a[2], seen)
    if t.tag == "t" and t.a[0] in ("concat", "str", "add"):
        return [y for x in t.a[1:] if isinstance(x, V) for y in pieces(eng, x, seen)]
    if is_t(t, "m") and t.a[1] == "replace" and all(is_c(x) for x in t.a[3:]):
        new = str(cval(t.a[4])) if len(t.a) > 4 else ""
        return pieces(eng, t.a[2], seen) if not set(new) & set("<>\"'") else [t]
    if is_t(t, "m") and t.a[1] == "join":
        return [y for x in t.a[2:] if isinstance(x, V) for y in pieces(eng, x, seen)]
    if t.tag == "rest" and t.a[1] is None and is_t(t.a[0], "acc") and eng.lvvals.get(t.a[0].a[1:3]):
        return [y for x in eng.lvvals[t.a[0].a[1:3]] for y in pieces(eng, x, seen)]
    if t.tag == "rest" and t.a[1] is not None:
        return pieces(eng, t.a[1], seen)
    if t.tag == "tmplif":
        return pieces(eng, t.a[0], seen)
    if t.tag == "tmplalt":
        return [y for v, _ in t.a for y in pieces(eng, v, seen)]
    if is_t(t, "listval") or is_t(t, "joined"):
        return [y for x in t.a[1:] if isinstance(x, V) for y in pieces(eng, x, seen)]
    return [t]


def safe(t):
    if is_t(t, "call") and t.a[1] == "html.escape":
        return not any(x is FALSE for x in t.a[2:])
    if is_t(t, "attr") and t.a[2] in ("lineno", "index", "tb_lineno", "f_lineno") or is_t(t, "len") or is_t(t, "enumidx"):
        return True
    if is_t(t, "sum") or is_t(t, "call") and t.a[1] == "builtins.int":
        return True      # arithmetic
    return False
