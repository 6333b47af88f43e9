"""Path analysis of WebSocketEndpoint: one on_connect, one on_receive per received message, one on_disconnect with the right code.

Endpoint classes (parsed client programs with each `encoding`) are interpreted over symbolic conversations: up to three server
messages (text, bytes, both fields present, disconnect with/without code), callbacks that return or raise, and sends that fail.
The event order of every path is compared with the documented life cycle; the data handed to on_receive is compared, as a
term, with the payload of the message, and a payload of the wrong kind must close the socket with 1003.
"""
from .c02 import *

CLIENT5 = '''
from starlette.endpoints import WebSocketEndpoint
from starlette.routing import WebSocketRoute

class Base(WebSocketEndpoint):
    async def on_connect(self, websocket):
        await websocket.accept()
        e_connect(websocket)
    async def on_receive(self, websocket, data):
        e_receive(websocket, data)
    async def on_disconnect(self, websocket, close_code):
        e_disconnect(websocket, close_code)

class NoneEp(Base):
    encoding = None
class TextEp(Base):
    encoding = "text"
class BytesEp(Base):
    encoding = "bytes"
class JsonEp(Base):
    encoding = "json"
class Unset(Base):
    pass
class Plain(WebSocketEndpoint):
    encoding = "text"

def make(cls):
    return WebSocketRoute("/", cls)
'''
Q5 = "starlette.endpoints.WebSocketEndpoint"
KINDS = {
    "text": {"text": S("txt")}, "bytes": {"bytes": S("byt")}, "text+none": {"text": S("txt"), "bytes": NONE},
    "none+bytes": {"text": NONE, "bytes": S("byt")}, "empty text": {"text": C(""), "bytes": NONE},
    "only empty text": {"text": C("")}, "only empty bytes": {"bytes": C(b"")}, "empty bytes": {"text": NONE, "bytes": C(b"")},
}


class Env5(Env02):
    header_models = False
    exact_exc = False

    def __init__(self, ctx, kinds, disc, raising):
        super().__init__(ctx, ())
        self.kinds, self.disc, self.raising = kinds, disc, raising

    def on_receive(self, eng, st, node):
        n = st.mon.get("nrcv", 0)
        st.mon["nrcv"] = n + 1
        if n == 0:
            return ok(st, eng.new_dict(st, "connectmsg", {C("type"): C("websocket.connect")}))
        if n <= len(self.kinds):
            f = {C(k): v for k, v in KINDS[self.kinds[n - 1]].items()}
            self.ev(st, "msg", self.kinds[n - 1])
            st.note(eng.loc(node), f"server delivers {self.kinds[n - 1]}")
            return ok(st, eng.new_dict(st, f"msg{n}", {C("type"): C("websocket.receive"), **f}))
        if n == len(self.kinds) + 1:
            self.ev(st, "disc")
            st.note(eng.loc(node), f"client disconnects {self.disc}")
            f = {} if self.disc == "none" else {C("code"): NONE if self.disc == "null" else C(4001) if self.disc == "4001" else S("disccode"), C("reason"): C("")}
            return ok(st, eng.new_dict(st, "discmsg", {C("type"): C("websocket.disconnect"), **f}))
        self.ev(st, "rcv-after-end")
        return []

    def on_call(self, eng, st, name, args, kwargs, node):
        if name.startswith("e_"):
            self.ev(st, name, *args)
            st.note(eng.loc(node), name)
            if self.raising == name:
                self.ev(st, "raised", name)
                st.note(eng.loc(node), f"{name} raises")
                return [("raise", st, self.exc)]
            return ok(st, NONE)
        return super().on_call(eng, st, name, args, kwargs, node)


def run(ctx):
    ctx.rule("connect", "on_connect is called exactly once, first, with a WebSocket on this scope and channels; the default accepts")
    ctx.rule("receive", "on_receive is called exactly once per received message, in order, with its payload decoded per the encoding")
    ctx.rule("disconnect", "once connected, on_disconnect is called exactly once, last; with the client's code (1000 by default) or 1011 when a callback raised")
    ctx.rule("mismatch", "a payload the encoding does not accept closes the socket with 1003 and raises; on_receive is not called for it")
    ctx.rule("errors", "what a callback raises leaves the endpoint")
    ctx.client(CLIENT + CLIENT5)
    convs = [(), ("text",), ("bytes",), ("text+none",), ("none+bytes",), ("empty text",), ("empty bytes",), ("only empty text",), ("only empty bytes",), ("text", "text"), ("bytes", "bytes", "bytes"), ("text", "bytes")]
    for cls in ("NoneEp", "Unset", "TextEp", "BytesEp", "JsonEp"):
        for conv in convs:
            for disc in ("4001", "sym", "null", "none") if len(conv) < 2 else ("4001",):
                for raising, exc in ((None, None), ("e_connect", "builtins.ValueError"), ("e_receive", "builtins.ValueError"), ("e_receive", "ext.Cancelled"), ("e_disconnect", "builtins.ValueError")):
                    one(ctx, cls, conv, disc, raising, exc)
    for conv in ((), ("text",)):
        one(ctx, "Plain", conv, "4001", None, None)
    ctx.need("conversation", 100)
    ctx.need("message delivered", 50)
    ctx.need("message refused", 20)
    ctx.need("disconnected", 50)


def want_data(cls, kind):
    """(acceptable data term predicate or None when the message must be refused, or '?' when unspecified)"""
    f = KINDS[kind]
    txt, byt = f.get("text"), f.get("bytes")
    if cls in ("NoneEp", "Unset"):
        return lambda d, st: d is (txt if txt not in (None, NONE) else byt)
    if cls in ("TextEp", "Plain"):
        return (lambda d, st: d is txt) if txt is not None and txt is not NONE else None if txt is None else "?"
    if cls == "BytesEp":
        return (lambda d, st: d is byt) if byt is not None and byt is not NONE else None if byt is None else "?"
    if cls == "JsonEp":
        return "json"


def one(ctx, cls, conv, disc, raising, exc):
    env = Env5(ctx, conv, disc, raising)
    env.exc = None if exc is None else T("exc", exc, "callback")
    eng = ctx.engine(env)
    st = eng.start_state()
    st.facts[T("in", C("starlette.exception_handlers"), SCOPE)] = Fact(tr=False)
    st.facts[S("txt")] = Fact(tr=True, ne=frozenset([NONE]), isa=frozenset(["builtins.str"]))
    st.facts[S("byt")] = Fact(tr=True, ne=frozenset([NONE]), isa=frozenset(["builtins.bytes"]))
    st.facts[S("disccode")] = Fact(tr=True, ne=frozenset([NONE]), isa=frozenset(["builtins.int"]))
    scope = new_scope(eng, st, "websocket")
    lab = f"{cls}, messages {list(conv)}, disconnect code {disc}{', ' + raising + ' raises ' + exc if raising else ''}: "
    for k, s, v in eng.run_call(st, Cls(eng.p.cls("client." + cls)), [scope, RECEIVE, SEND]):
        ctx.oblige("conversation")
        rep = lambda rule, t: eng.report(rule, Q5, s, lab + t)
        evs = s.mon.get("ev", ())
        names = [e[0] for e in evs]
        fwd = [e[1] for e in evs if e[0] == "fwd"]
        if not fwd or stype(fwd[0]) != "websocket.accept":
            rep("connect", "the connection is not accepted first")
            continue
        if cls == "Plain":
            if k != "ok" or [stype(x) for x in fwd] != ["websocket.accept"]:
                rep("connect", f"an endpoint with default callbacks ends {k}, sent {[stype(x) for x in fwd]}")
            continue
        if names.count("e_connect") != 1 or names.index("e_connect") > min([i for i, n in enumerate(names) if n in ("e_receive", "e_disconnect", "msg", "disc")] or [99]):
            rep("connect", "on_connect is not called exactly once, first")
            continue
        ws = next(e[1] for e in evs if e[0] == "e_connect")
        if any(e[1] is not ws for e in evs if e[0] in ("e_receive", "e_disconnect")) or ws.tag != "ref" or eng.type_of(s, ws) != WQ or \
                [x for _, _, x in eng.getattr(s.fork(), ws, "scope", "attr")] != [scope]:
            rep("connect", "the callbacks do not share one WebSocket on this scope")
        if raising == "e_connect":
            if k != "raise" or v is not env.exc or "e_receive" in names or "e_disconnect" in names:
                rep("errors", f"on_connect raised: ends {k}, {names}")
            continue
        if "rcv-after-end" in names:
            rep("disconnect", "receives after the disconnect")
        # walk the conversation
        pend, failed, refused = None, False, False
        got = [e for e in evs if e[0] in ("msg", "disc", "e_receive", "raised", "fwd", "e_disconnect")][1:]
        i = 0
        stop = None
        while i < len(got):
            e = got[i]
            if e[0] == "msg":
                w = want_data(cls, e[1])
                nxt = got[i + 1] if i + 1 < len(got) else ("end",)
                closed = nxt[0] == "fwd" and stype(nxt[1]) == "websocket.close"
                if w == "json":
                    if nxt[0] == "e_receive":
                        ctx.oblige("message delivered")
                        pay = KINDS[e[1]].get("text") if KINDS[e[1]].get("text") not in (None, NONE) else KINDS[e[1]]["bytes"]
                        d = nxt[2]
                        if not (is_t(d, "call") and d.a[1] == "json.loads" and (is_c(pay) or mentions(d, pay))):
                            rep("receive", f"on_receive gets {show(d)}")
                        i += 2
                    else:
                        stop = "refused"
                        ctx.oblige("message refused")
                        if not closed or sfield(nxt[1], "code") is not C(1003):
                            rep("mismatch", f"malformed JSON: next event is {nxt[0]}")
                        i += 2 if closed else 1
                elif w is None or w == "?" and nxt[0] != "e_receive":
                    ctx.oblige("message refused")
                    stop = "refused"
                    if not closed or sfield(nxt[1], "code") is not C(1003):
                        rep("mismatch", f"payload of the wrong kind: next event is {nxt[0]}")
                    i += 2 if closed else 1
                elif w == "?":
                    rep("mismatch", f"a payload that is null for this encoding is handed over: {show(nxt[2])}")
                    i += 2
                else:
                    if nxt[0] != "e_receive":
                        rep("receive", f"message {e[1]} leads to {nxt[0]}")
                        break
                    ctx.oblige("message delivered")
                    if not w(nxt[2], s):
                        rep("receive", f"message {e[1]} gives data {show(nxt[2])}")
                    i += 2
                if i < len(got) and got[i][0] == "raised" and got[i][1] == "e_receive":
                    stop = "raised"
                    i += 1
                if stop:
                    break
            elif e[0] == "disc":
                stop = "disc"
                i += 1
                break
            else:
                rep("receive", f"unexpected {e[0]}")
                break
        rest = got[i:]
        ds = [e for e in rest if e[0] == "e_disconnect"]
        if len(ds) != 1 or rest[0] is not ds[0] and rest[0][0] != "e_disconnect":
            rep("disconnect", f"on_disconnect called {len(ds)} times")
            continue
        if any(e[0] in ("fwd", "msg", "e_receive") for e in rest):
            rep("disconnect", "activity after on_disconnect")
        ctx.oblige("disconnected")
        code = eng.known(s, ds[0][2])
        if stop == "disc":
            if disc == "sym":
                # a code of 0 counts as no code
                good = mentions(code, S("disccode")) or eng.truth(s, S("disccode")) is False and code is C(1000)
            else:
                good = code is C(4001 if disc == "4001" else 1000)
            if not good:
                rep("disconnect", f"on_disconnect gets {show(code)} for disconnect code {disc}")
        elif exc != "ext.Cancelled" or stop == "refused":
            if code is not C(1011):
                rep("disconnect", f"on_disconnect gets {show(code)} after a failure")
        if raising == "e_disconnect":
            if k != "raise" or v is not env.exc:
                rep("errors", f"on_disconnect raised, but ends {k}")
        elif stop == "raised":
            if k != "raise" or v is not env.exc:
                rep("errors", f"on_receive raised, but ends {k}")
        elif stop == "refused":
            if k != "raise":
                rep("mismatch", "a refused payload does not raise")
        elif k != "ok":
            rep("errors", f"nothing failed, but ends {k} {show(v)}")
