"""Typestate analysis of every response class.

Every class deriving from Response (found in the class table, not by name) is constructed with symbolic arguments and its
__call__ is interpreted on every path against a most-general receive/send; each awaited send advances an automaton
(init -> started -> complete, extension messages before the start allowed).  Reported: body before start, second start,
anything after the final body, an unknown message type, a path that returns normally without the final body, and a
background task that is started before the final body was handed over, or is started more than once or never.
"""
from .common import *

STREAM_CUT = "a client disconnect may cut the stream; only then may the final body be missing"


class RespEnv(AsgiEnv):
    def __init__(self, ctx, name):
        super().__init__()
        self.ctx, self.name = ctx, name

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "background":
            return ok(st, aw("background"))
        return None

    def thread_call(self, eng, st, args, kwargs, node):
        return None

    def aw_background(self, eng, st, args, node):
        self.ctx.oblige("background start")
        if st.mon.get("resp") != "complete" and not st.mon.get("disc"):
            eng.report("background-after-response", self.name, st, "background task started before the final body was sent", node)
        if st.mon.get("bg"):
            eng.report("background-once", self.name, st, "background task started twice", node)
        st.mon["bg"] = True
        return ok(st, NONE)

    def on_receive(self, eng, st, node):
        # a disconnect, or anything else a server may deliver
        s2 = st.fork()
        s2.mon["disc"] = True
        s2.note(eng.loc(node), "receive http.disconnect")
        return [("ok", st, request_message(eng, st, node)),
                ("ok", s2, eng.new_dict(s2, node, {C("type"): C("http.disconnect")}))]

    def on_send(self, eng, st, msg, node):
        self.ctx.oblige("send site reached")
        t = msg_get(eng, st, msg, "type")
        t = eng.known(st, t) if t is not None else None
        rep = lambda rule, text: eng.report(rule, self.name, st, text, node)
        if t is None or not is_c(t):
            vals = None
            rep("known-message-type", f"message type is not a constant: {describe(eng, st, msg)}")
            return None
        tv = cval(t)
        tv = tv[len("websocket."):] if tv.startswith("websocket.") else tv
        cur = st.mon.get("resp", "init")
        if tv == "http.response.start":
            if cur != "init":
                rep("one-start", f"http.response.start sent when the response is already {cur}")
            for key in ("status", "headers"):
                if msg_get(eng, st, msg, key) is None:
                    rep("start-fields", f"http.response.start without '{key}'")
            st.mon["resp"] = "started"
            return None
        if tv == "http.response.body":
            if cur != "started":
                rep("body-after-start", f"http.response.body sent when the response is {cur}")
            res = []
            for b, s2 in mbool(eng, st, msg_get(eng, st, msg, "more_body"), False):
                if not b:
                    s2.mon["resp"] = "complete"
                res.append(("ok", s2, NONE))
            return res
        if tv in ("http.response.debug",):
            if cur != "init":
                rep("debug-before-start", "http.response.debug after the response started")
            return None
        rep("known-message-type", f"unknown response message type {tv!r}")
        return None


def drive(ctx, q, background, preset=None, attrs=None):
    """interpret q.__call__ on an instance in an arbitrary state; yields the outcomes"""
    env = RespEnv(ctx, q)
    eng = ctx.engine(env)
    eng.coarse, eng.join_sync, eng.join_heads = True, 4, 6
    ci = ctx.p.cls(q)
    st = eng.start_state()
    scope = new_scope(eng, st, "http")
    inst = sym_inst(eng, st, ci, preset={"background": background, **(attrs or {})})
    if background is not NONE:
        st.facts[background] = Fact(tr=True, ne=frozenset([NONE]))
    for k, s, v in eng.run_call(st, inst, [scope, RECEIVE, SEND]):
        yield eng, k, s, v


def run(ctx):
    p = ctx.p
    ctx.rule("one-start", "exactly one http.response.start, before every body message")
    ctx.rule("body-after-start", "body messages only between the start and the final body; nothing after the final body")
    ctx.rule("final-body", "a path that returns normally has sent exactly one final body, unless the client disconnected while streaming")
    ctx.rule("background-after-response", "the background task starts after the final body was handed to the server")
    ctx.rule("background-once", "every normally returning path runs the background task exactly once")
    for q in subclasses(p, RESP):
        if p.cls(q).find("__call__") is None:
            continue
        ctx.oblige("response class")
        for bg in (S("background"), NONE):
            for eng, k, s, v in drive(ctx, q, bg):
                ctx.oblige("path")
                if k != "ok":
                    continue
                r = s.mon.get("resp", "init")
                if r != "complete" and not s.mon.get("disc"):
                    eng.report("final-body", q, s, f"normal return with the response {r}")
                if bg is not NONE and not s.mon.get("bg"):
                    eng.report("background-once", q, s, "normal return without running the background task")
    ctx.need("response class", 8)
    ctx.need("background start", 8)
    ctx.assume("receive delivers http.request or http.disconnect messages in any order; send may raise any exception class some active handler names")
    ctx.assume("a subclass defined outside the package is not analysed")
