"""Typestate bisimulation of the WebSocket class against the ASGI websocket protocol.

A connection object is built by interpreting its constructor; then every operation (raw send / raw receive with each
message type of the protocol plus an unknown one, and every convenience coroutine) is interpreted from every abstract
object state reachable from it, in lock step with the protocol automaton, until no new (object state, protocol state)
pair appears.  For each pair the analysis compares: what was forwarded to the server, what was raised, what was returned
and the protocol state that follows.  The object's fields are never named by the rule; only client_state /
application_state, which are public, are compared with the protocol state.
"""
from .common import *

WS = "starlette.websockets.WebSocket"
NODISC = "starlette.websockets.WebSocketDisconnect"
SENDS = {
    "CONNECTING": {"websocket.accept": "CONNECTED", "websocket.close": "DISCONNECTED", "websocket.http.response.start": "RESPONSE"},
    "CONNECTED": {"websocket.send": "CONNECTED", "websocket.close": "DISCONNECTED"},
    "RESPONSE": {"websocket.http.response.body": None},
    "DISCONNECTED": {},
}
RECVS = {
    "CONNECTING": {"websocket.connect": "CONNECTED"},
    "CONNECTED": {"websocket.receive": "CONNECTED", "websocket.disconnect": "DISCONNECTED"},
    "DISCONNECTED": {},
}
TYPES = ["websocket.accept", "websocket.close", "websocket.send", "websocket.http.response.start", "websocket.http.response.body", "websocket.other"]
RTYPES = ["websocket.connect", "websocket.receive", "websocket.disconnect", "websocket.other"]


class WsEnv(AsgiEnv):
    raise_on = ("builtins.OSError",)
    header_models = False

    def on_send(self, eng, st, msg, node):
        st.mon["fwd"] = st.mon.get("fwd", ()) + (freeze(eng, st, msg),)

    def aw_send(self, eng, st, args, node):
        outs = []
        s2 = st.fork()
        self.on_send(eng, s2, args[0], node)
        s2.mon["oserror"] = True
        s2.note(eng.loc(node), "server send raises OSError")
        outs.append(("raise", s2, T("exc", "builtins.OSError", "server")))
        st.note(eng.loc(node), f"forward {describe(eng, st, args[0])}")
        self.on_send(eng, st, args[0], node)
        return outs + ok(st, NONE)

    def aw_receive(self, eng, st, args, node):
        res = []
        if st.mon.get("rcv", 0) >= 2:
            return []
        for t in RTYPES:
            s2 = st.fork()
            s2.mon["rcv"] = s2.mon.get("rcv", 0) + 1
            s2.mon["got"] = s2.mon.get("got", ()) + (t,)
            m = eng.new_dict(s2, "rmsg-" + t, {C("type"): C(t)}, base=T("sym", "rmsg", len(s2.mon["got"])))
            s2.mon["gotmsg"] = s2.mon.get("gotmsg", ()) + (m,)
            s2.note(eng.loc(node), f"server delivers {t}")
            res.append(("ok", s2, m))
        return res

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "response":
            return ok(st, aw("response", *args))
        return None

    def aw_response(self, eng, st, args, node):
        st.mon["denial"] = st.mon.get("denial", ()) + (tuple(args),)
        return ok(st, NONE)


def freeze(eng, st, m):
    if m.tag == "ref" and st.heap[m].kind == "dict":
        o = st.heap[m]
        return ("dict", frozenset((k, v) for k, v in o.d.items() if v is not ABSENT), o.base, m)
    return ("term", m)


def field(fz, key):
    if fz[0] == "dict":
        for k, v in fz[1]:
            if k is C(key):
                return v
        return T("item", fz[2], C(key)) if fz[2] is not None else None
    return None


def enum_name(eng, s, ref, attr):
    for k, s2, v in eng.getattr(s.fork(), ref, attr, "attr"):
        if k == "ok" and v.tag == "enum":
            return v.a[1]
    return None


def clean(eng, st, facts):
    s = st.fork()
    s.facts = dict(facts)
    s.mon = {}
    return s


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.env = WsEnv()
        self.eng = ctx.engine(self.env)
        eng = self.eng
        st = eng.start_state()
        self.scope = new_scope(eng, st, "websocket", extensions=S("extensions"))
        outs = eng.call(st, Cls(ctx.p.cls(WS)), [self.scope, RECEIVE, SEND], {}, "entry")
        outs = [o for o in outs if o[0] == "ok"]
        if not outs:
            raise AnchorError("WebSocket cannot be constructed for a websocket scope")
        self.inst = outs[0][2]
        self.start = outs[0][1]
        self.base = dict(self.start.facts)

    def rep(self, rule, s, msg, construct=WS):
        self.eng.report(rule, construct, s, msg)

    def key(self, s, spec):
        return (self.eng.skey(clean(self.eng, s, {}), (self.inst,)), spec)

    def call(self, s, name, args=(), kw=None):
        eng = self.eng
        s = clean(eng, s, self.base)
        res = []
        for k, s2, f in eng.getattr(s, self.inst, name, "entry"):
            if k != "ok":
                continue
            res.extend(eng.run_call(s2, f, list(args), kw or {}))
        return res

    def after(self, s, spec):
        """public state attributes agree with the protocol"""
        cs, as_ = enum_name(self.eng, s, self.inst, "client_state"), enum_name(self.eng, s, self.inst, "application_state")
        if cs is not None and cs != spec[0]:
            self.rep("state-tracks-protocol", s, f"client_state is {cs} where the protocol is {spec[0]}")
        if as_ is not None and as_ != spec[1]:
            self.rep("state-tracks-protocol", s, f"application_state is {as_} where the protocol is {spec[1]}")

    def raw_send(self, s, spec, t, more):
        eng, out = self.eng, []
        s = s.fork()
        d = {C("type"): C(t) if t != "websocket.other" else S("othertype")}
        if more is not None:
            d[C("more_body")] = B(more)
        m = eng.new_dict(s, "smsg-" + t + str(more), d)
        legal = SENDS[spec[1]]
        base = dict(self.base)
        s0 = clean(eng, s, base)
        if t == "websocket.other":
            s0.facts[S("othertype")] = Fact(ne=frozenset(C(x) for x in TYPES))
        outs = []
        for k, s2, f in eng.getattr(s0, self.inst, "send", "entry"):
            outs.extend(eng.run_call(s2, f, [m]))
        self.ctx.oblige("send transition", 1)
        if not outs:
            self.rep("send-legal", s, f"send of {t} in {spec[1]} has no outcome")
        good = False
        for k, s2, v in outs:
            fwd = s2.mon.get("fwd", ())
            if t in legal:
                nxt = legal[t]
                if nxt is None:
                    nxt = "RESPONSE" if more else "DISCONNECTED"
                if len(fwd) != 1 or fwd[0][0] != "dict" or fwd[0][1] != frozenset(d.items()):
                    self.rep("send-legal", s2, f"{t} (more_body={more}) in state {spec[1]}: forwarded {len(fwd)} message(s) / altered, kind {k}")
                    continue
                if s2.mon.get("oserror"):
                    if spec[1] == "CONNECTED":
                        if k != "raise" or eng.exc_name(s2, v) != NODISC:
                            self.rep("send-oserror", s2, f"OSError while sending {t} surfaces as {k} {show(v)[:80]}, not a WebSocketDisconnect")
                        else:
                            code = self.attr(s2, v, "code")
                            if code is not C(1006):
                                self.rep("send-oserror", s2, f"disconnect after OSError carries code {show(code) if code else None}")
                        nspec = (spec[0], "DISCONNECTED")
                        self.after(s2, nspec)
                        out.append((s2, nspec))
                    continue
                if k != "ok":
                    self.rep("send-legal", s2, f"legal {t} in state {spec[1]} raises {eng.exc_name(s2, v)}")
                    continue
                good = True
                nspec = (spec[0], nxt)
                self.after(s2, nspec)
                out.append((s2, nspec))
            else:
                if fwd:
                    self.rep("send-illegal", s2, f"{t} is forwarded to the server in state {spec[1]}")
                if k != "raise" or eng.exc_name(s2, v) != "builtins.RuntimeError":
                    self.rep("send-illegal", s2, f"{t} in state {spec[1]} does not raise RuntimeError ({k})")
                else:
                    self.after(s2, spec)
                    out.append((s2, spec))
        return out

    def attr(self, s, v, name):
        for k, s2, x in self.eng.getattr(s.fork(), v, name, "attr"):
            if k == "ok":
                return x
        return None

    def raw_receive(self, s, spec):
        eng, out = self.eng, []
        legal = RECVS[spec[0]]
        self.ctx.oblige("receive transition")
        seen = set()
        for k, s2, v in self.call(s, "receive"):
            got = s2.mon.get("got", ())
            if s2.mon.get("fwd"):
                self.rep("receive", s2, "receive() sends a message")
            if not legal:
                if got:
                    self.rep("receive", s2, f"receive() waits for the server in state {spec[0]}")
                if k != "raise" or eng.exc_name(s2, v) != "builtins.RuntimeError":
                    self.rep("receive", s2, f"receive() in state {spec[0]} does not raise RuntimeError")
                else:
                    self.after(s2, spec)
                    out.append((s2, spec))
                continue
            if len(got) != 1:
                self.rep("receive", s2, f"receive() takes {len(got)} server messages in state {spec[0]}")
                continue
            t = got[0]
            seen.add(t)
            if t in legal:
                if k != "ok" or v is not s2.mon["gotmsg"][0]:
                    self.rep("receive", s2, f"{t} in state {spec[0]} is not returned ({k})")
                    continue
                nspec = (legal[t], spec[1])
                self.after(s2, nspec)
                out.append((s2, nspec))
            else:
                if k != "raise" or eng.exc_name(s2, v) != "builtins.RuntimeError":
                    self.rep("receive", s2, f"unexpected {t} in state {spec[0]} does not raise RuntimeError")
        if legal and set(legal) - seen:
            self.rep("receive", s, f"receive() never delivers {sorted(set(legal)-seen)} in state {spec[0]}")
        return out

    def convenience(self, s, spec):
        """accept / close / send_* / receive_* agree with the raw protocol in this state"""
        eng = self.eng
        # accept
        for k, s2, v in self.call(s, "accept", [S("subprotocol"), S("headers")]):
            self.ctx.oblige("accept")
            got, fwd = s2.mon.get("got", ()), s2.mon.get("fwd", ())
            if spec[0] == "CONNECTING" and not got:
                self.rep("accept", s2, "accept() does not wait for websocket.connect")
            if spec[0] != "CONNECTING" and got:
                self.rep("accept", s2, "accept() consumes a message after the connect was already received")
            if spec[1] == "CONNECTING":
                if got and got[0] != "websocket.connect":
                    if fwd:
                        self.rep("accept", s2, "accept() sent although the server did not connect")
                    continue
                if len(fwd) != 1:
                    if k == "ok":
                        self.rep("accept", s2, f"accept() forwards {len(fwd)} messages")
                    continue
                if field(fwd[0], "type") is not C("websocket.accept") or field(fwd[0], "subprotocol") is not S("subprotocol"):
                    self.rep("accept", s2, "accept() sends a wrong message")
                h = field(fwd[0], "headers")
                if h is None or (h is not S("headers") and eng.truth(s2, S("headers")) is not False and not mentions(h, S("headers"))):
                    self.rep("accept", s2, "accept() drops the headers")
            elif fwd:
                self.rep("accept", s2, f"accept() forwards a message in state {spec[1]}")
        # close
        for k, s2, v in self.call(s, "close", [S("code"), S("reason")]):
            self.ctx.oblige("close")
            fwd = s2.mon.get("fwd", ())
            if "websocket.close" in SENDS[spec[1]]:
                if len(fwd) != 1 or field(fwd[0], "type") is not C("websocket.close") or field(fwd[0], "code") is not S("code"):
                    self.rep("close", s2, "close() does not forward exactly one websocket.close with its code")
                    continue
                r = field(fwd[0], "reason")
                tr = eng.truth(s2, S("reason"))
                if not (r is S("reason") or (tr is False and r is C(""))):
                    self.rep("close", s2, f"close() forwards reason {show(r) if r else None}")
            elif fwd:
                self.rep("close", s2, f"close() forwards in state {spec[1]}")
        # sends
        for name, mode, key, chk in (("send_text", None, "text", lambda d: d is S("data")), ("send_bytes", None, "bytes", lambda d: d is S("data")),
                                ("send_json", "text", "text", lambda d: mentions(d, S("data"))), ("send_json", "binary", "bytes", lambda d: mentions(d, S("data")))):
            for k, s2, v in self.call(s, name, [S("data")], {"mode": C(mode)} if mode else {}):
                self.ctx.oblige(name)
                fwd = s2.mon.get("fwd", ())
                if spec[1] == "CONNECTED":
                    if len(fwd) != 1 or field(fwd[0], "type") is not C("websocket.send"):
                        self.rep("send-helper", s2, f"{name}({mode}) forwards {len(fwd)} messages")
                        continue
                    keys = {cval(a) for a, b in fwd[0][1]} - {"type"}
                    val = field(fwd[0], key)
                    if keys != {key} or val is None or not chk(val):
                        self.rep("send-helper", s2, f"{name}({mode}) sends fields {sorted(keys)} instead of its data under {key!r}")
                elif fwd:
                    self.rep("send-helper", s2, f"{name} forwards in state {spec[1]}")
        for k, s2, v in self.call(s, "send_json", [S("data")], {"mode": C("other")}):
            if k != "raise" or s2.mon.get("fwd"):
                self.rep("send-helper", s2, "send_json accepts an unknown mode")
        # receives
        for name, mode, key in (("receive_text", None, "text"), ("receive_bytes", None, "bytes"), ("receive_json", "text", "text"), ("receive_json", "binary", "bytes")):
            for k, s2, v in self.call(s, name, [], {"mode": C(mode)} if mode else {}):
                self.ctx.oblige(name)
                got = s2.mon.get("got", ())
                if s2.mon.get("fwd"):
                    self.rep("receive-helper", s2, f"{name} sends a message")
                if spec[1] != "CONNECTED":
                    if got or k != "raise":
                        self.rep("receive-helper", s2, f"{name} before/after the connection is open (state {spec[1]}) {'consumes a message' if got else 'does not raise'}")
                    continue
                if got and got[0] == "websocket.disconnect" and spec[0] == "CONNECTED":
                    if k != "raise" or eng.exc_name(s2, v) != NODISC:
                        self.rep("receive-helper", s2, f"{name} does not raise WebSocketDisconnect on websocket.disconnect")
                        continue
                    src = T("sym", "rmsg", 1)
                    code = self.attr(s2, v, "code")
                    if code is not T("item", src, C("code")):
                        self.rep("receive-helper", s2, f"{name}: WebSocketDisconnect carries code {show(code) if code else None}, not the message's")
                    reason = self.attr(s2, v, "reason")
                    if reason is None or not (mentions(reason, T("item", src, C("reason"))) or is_c(reason) and cval(reason) == ""):
                        self.rep("receive-helper", s2, f"{name}: WebSocketDisconnect drops the reason")
                    continue
                if k == "ok" and spec[0] == "CONNECTED":
                    if len(got) != 1 or got[0] != "websocket.receive":
                        self.rep("receive-helper", s2, f"{name} returns after {got}")
                        continue
                    want = T("item", T("sym", "rmsg", 1), C(key))
                    if not (v is want or (name == "receive_json" and mentions(v, want))):
                        self.rep("receive-helper", s2, f"{name}({mode}) returns {show(v)[:80]} instead of the message's {key!r}")
        for k, s2, v in self.call(s, "receive_json", [], {"mode": C("other")}):
            if k != "raise" or s2.mon.get("got"):
                self.rep("receive-helper", s2, "receive_json accepts an unknown mode")
        # iterators
        if spec == ("CONNECTED", "CONNECTED"):
            for name, key in (("iter_text", "text"), ("iter_bytes", "bytes"), ("iter_json", "text")):
                self.iterate(s, name, key)
        # denial response
        for k, s2, v in self.call(s, "send_denial_response", [S("response")]):
            self.ctx.oblige("denial")
            ext = S("extensions")
            has = eng.truth(s2, T("in", C("websocket.http.response"), ext))
            den = s2.mon.get("denial", ())
            if den:
                if has is not True:
                    self.rep("denial", s2, "a denial response is sent without the server extension")
                a = den[0]
                if len(den) != 1 or len(a) != 3 or a[0] is not self.scope:
                    self.rep("denial", s2, "the denial response is not called with the connection's scope / receive / send")
            elif k != "raise":
                self.rep("denial", s2, "send_denial_response returns without sending or raising")
            elif has is True:
                self.rep("denial", s2, "send_denial_response refuses although the extension is present")

    def iterate(self, s, name, key):
        eng = self.eng
        s = clean(eng, s, self.base)
        ended = False
        for k, s2, f in eng.getattr(s, self.inst, name, "entry"):
            for k2, s3, g in eng.call(s2, f, [], {}, "entry"):
                if k2 != "ok":
                    continue

                def body(st, v):
                    st.mon["ys"] = st.mon.get("ys", ()) + (v,)
                    if len(st.mon["ys"]) > 1:
                        return [("break", st, None)]
                    return [("next", st, None)]
                for k4, s4, v4 in eng.for_over(s3, g, "iterate", body, True):
                    self.ctx.oblige(name)
                    got, ys = s4.mon.get("got", ()), s4.mon.get("ys", ())
                    n = sum(1 for t in got if t == "websocket.receive")
                    if k4 == "raise" and eng.exc_name(s4, v4) == NODISC:
                        self.rep("iter", s4, f"{name} lets the disconnect escape")
                    if k4 == "next" and len(ys) < 2:
                        if not got or got[-1] != "websocket.disconnect":
                            self.rep("iter", s4, f"{name} ends although the peer did not disconnect ({list(got)})")
                        else:
                            ended = True
                    if k4 == "next" and len(ys) != n:
                        self.rep("iter", s4, f"{name} yields {len(ys)} values for {n} messages")
                    for i, v in enumerate(ys):
                        if not mentions(v, T("item", T("sym", "rmsg", i + 1), C(key))):
                            self.rep("iter", s4, f"{name} yields {show(v)[:60]} for message {i+1}")
        if not ended:
            self.rep("iter", s, f"{name} never ends on a disconnect")


def run(ctx):
    ctx.rule("send-legal", "a message legal in the protocol state is forwarded once, unchanged, without an error")
    ctx.rule("send-illegal", "a message illegal in the protocol state raises RuntimeError and reaches nobody")
    ctx.rule("send-oserror", "OSError while connected surfaces as WebSocketDisconnect(1006) and ends the connection")
    ctx.rule("receive", "receive() delivers legal server messages, raises RuntimeError otherwise, and never waits after a disconnect")
    ctx.rule("state-tracks-protocol", "client_state / application_state equal the protocol state after every operation")
    ctx.rule("iter", "the iterators yield every message in order and end at the disconnect")
    ctx.rule("denial", "denial responses only with the server's extension")
    r = Run(ctx)
    init = ("CONNECTING", "CONNECTING")
    r.after(r.start, init)
    seen = {r.key(r.start, init)}
    work = [(r.start, init)]
    specs = set()
    while work:
        s, spec = work.pop()
        ctx.oblige("product state")
        specs.add(spec)
        new = []
        for t in TYPES:
            for more in ((None, True, False) if t.endswith("body") else (None,)):
                new += r.raw_send(s, spec, t, more)
        new += r.raw_receive(s, spec)
        r.convenience(s, spec)
        for s2, sp2 in new:
            k = r.key(s2, sp2)
            if k not in seen:
                seen.add(k)
                work.append((clean(r.eng, s2, r.base), sp2))
        if len(seen) > 400:
            raise Cut("websocket state space does not close")
    ctx.info["protocol_states"] = sorted(map(str, specs))
    ctx.need("product state", 12)
    if len(specs) < 12:
        raise AnchorError("not every protocol state is reachable")
    closeapp(ctx)


def closeapp(ctx):
    """WebSocketClose is a one-message ASGI app"""
    env = WsEnv()
    eng = ctx.engine(env)
    st = eng.start_state()
    scope = new_scope(eng, st, "websocket")
    for k, s, v in eng.call(st, Cls(ctx.p.cls("starlette.websockets.WebSocketClose")), [S("code"), S("reason")], {}, "entry"):
        for k2, s2, v2 in eng.run_call(s, v, [scope, RECEIVE, SEND]):
            if s2.mon.get("oserror"):
                continue
            fwd = s2.mon.get("fwd", ())
            ctx.oblige("WebSocketClose")
            if k2 != "ok" or len(fwd) != 1 or field(fwd[0], "type") is not C("websocket.close") or field(fwd[0], "code") is not S("code"):
                eng.report("send-legal", "starlette.websockets.WebSocketClose", s2, "does not send exactly one websocket.close with its code")
