"""The request body against the messages received, by constant propagation through client programs.

Message histories (any number of chunks, omitted fields, empty chunks, disconnects) are read by every sequence of up to three of the
reading operations; each result, the messages taken from the channel and what the next reader sees are compared with a reference.
"""
from itertools import product

from ..mw import *
from .c20 import value
from .c30 import call, lit
from .common import *

CLIENT26 = '''
from starlette.requests import Request, ClientDisconnect

class Cancelled(BaseException):
    pass

class Scope:
    def __init__(self, *args, **kwargs):
        self.cancelled = False
    def __enter__(self):
        return self
    def cancel(self):
        self.cancelled = True
    def __exit__(self, t, exc, tb):
        return isinstance(exc, Cancelled) and self.cancelled

async def one(r, op):
    try:
        if op == "body":
            return "value", await r.body()
        if op == "json":
            return "value", await r.json()
        if op == "stream":
            out = []
            try:
                async for chunk in r.stream():
                    out.append(chunk)
            except ClientDisconnect:
                return "cut", out
            return "value", out
        if op == "disconnected":
            return "value", await r.is_disconnected()
        if op == "form":
            form = await r.form()
            return "value", form.multi_items()
        if op == "close":
            return "value", await r.close()
    except ClientDisconnect:
        return "disconnect", None
    except RuntimeError:
        return "consumed", None

async def play(scope, messages, ops):
    taken = []
    async def receive():
        if not messages:
            raise Cancelled()
        m = messages.pop(0)
        taken.append(m)
        return m
    r = Request(scope, receive)
    out = []
    for op in ops:
        got = await one(r, op)
        out.append((got, len(taken)))
    return out

async def two(scope, messages, others):
    async def receive():
        return messages.pop(0)
    async def receive2():
        return others.pop(0)
    r, q = Request(scope, receive), Request(scope, receive2)
    return await r.body(), await q.body(), await r.body()
'''
Q = "starlette.requests.Request"
R = "http.request"
HIST = {
    "single": [{"type": R, "body": b"one", "more_body": False}],
    "no fields": [{"type": R}],
    "no more_body": [{"type": R, "body": b"x"}, {"type": R, "body": b"never"}],
    "chunks": [{"type": R, "body": b"one", "more_body": True}, {"type": R, "body": b"two", "more_body": True}, {"type": R, "body": b"three", "more_body": False}, {"type": "http.disconnect"}, {"type": "http.disconnect"}],
    "empty between": [{"type": R, "body": b"", "more_body": True}, {"type": R, "more_body": True}, {"type": R, "body": b"a", "more_body": True}, {"type": R, "body": b"", "more_body": True}, {"type": R, "body": b"b"}],
    "empty last": [{"type": R, "body": b"a", "more_body": True}, {"type": R}, {"type": "http.disconnect"}],
    "all empty": [{"type": R, "body": b"", "more_body": True}, {"type": R, "body": b""}],
    "disconnect first": [{"type": "http.disconnect"}],
    "disconnect midway": [{"type": R, "body": b"part", "more_body": True}, {"type": R, "body": b"", "more_body": True}, {"type": "http.disconnect"}],
}
OPS = ("body", "json", "stream", "form", "disconnected", "close")


class Env26(MwEnv):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q in ("anyio.CancelScope", "anyio.abc.CancelScope", "anyio.move_on_after"):
            return list(eng.call(st, eng.force(st, eng.p.lookup_global(eng.p.client, "Scope")), args, kwargs, node))
        if q == "json.loads":
            b = eng.known(st, args[0])
            if is_c(b) and cval(b) == b"null":
                return ok(st, NONE)
            return ok(st, Tup([C("json"), b]))
        if q.rsplit(".", 1)[-1] == "parse_options_header":
            return ok(st, Tup([C(b""), eng.new_dict(st, node, {}, None)]))
        return super().on_ext(eng, st, q, args, kwargs, node)


class Ref:
    """what the documentation says"""

    def __init__(self, messages):
        self.m, self.n = messages, 0
        self.state = "fresh"        # fresh, consumed, broken, cached
        self.gone = False
        self.cache = self.js = None

    def chunks(self):
        out = []
        while True:
            m = self.m[self.n]
            self.n += 1
            if m["type"] == "http.disconnect":
                self.state, self.gone = "broken", True
                return out, False
            if m.get("body"):
                out.append(m["body"])
            if not m.get("more_body", False):
                self.state = "consumed"
                return out, True

    def op(self, op):
        if op == "close":
            return "value", None
        if op == "form":
            return "value", []      # no form content type: nothing is read
        if op == "disconnected":
            if not self.gone and self.n < len(self.m):
                self.gone = self.m[self.n]["type"] == "http.disconnect"
                self.n += 1
            return "value", self.gone
        if op == "json" and self.js is not None:
            return "value", self.js[0]
        if self.state == "cached":
            b = self.cache
        elif self.state == "consumed":
            return "consumed", None
        else:
            out, done = self.chunks()
            if op == "stream":
                return ("value", out + [b""]) if done else ("cut", out)
            if not done:
                return "disconnect", None
            b = self.cache = b"".join(out)
            self.state = "cached"
        if op == "stream":
            return "value", [b, b""]
        if op == "json":
            self.js = [None if b == b"null" else ("json", b)]
            return "value", self.js[0]
        return "value", b


def run(ctx):
    ctx.rule("body", "body() is all chunks of the request joined in order, read once and kept; stream() gives the non-empty chunks in order and one empty chunk at the end, or the kept body; a consumed stream is an error, a disconnect raises ClientDisconnect")
    ctx.rule("channel", "no message is taken from the channel that belongs to what follows the body, and none when the answer is known")
    ctx.rule("apart", "two requests keep their own bodies")
    ctx.client(CLIENT26)
    hist = dict(HIST, null=[{"type": R, "body": b"nu", "more_body": True}, {"type": R, "body": b"ll"}])
    depth = 3 if ctx.tier == "quick" else 4
    for name, ms in hist.items():
        for n in range(1, depth + 1):
            for ops in product(OPS, repeat=n):
                if valid(ops, ms):
                    play(ctx, name, ms, ops)
    eng = engine(ctx)
    st = eng.start_state()
    for k, s, v in call(ctx, eng, st, "two", [lit(eng, st, SCOPE), lit(eng, st, HIST["chunks"]), lit(eng, st, HIST["single"])]):
        ctx.oblige("apart")
        if k != "ok" or value(s, v) != (b"onetwothree", b"one", b"onetwothree"):
            eng.report("apart", Q + ".body", s, f"two requests read {value(s, v)}")
    ctx.need("body", 500)
    ctx.assume("is_disconnected() before the body was read may take a body message from servers whose receive does not suspend; not claimed")


SCOPE = {"type": "http", "method": "POST", "headers": []}


def valid(ops, ms):
    """sequences whose meaning is documented: is_disconnected only after the body was read, and nothing is read after a disconnect"""
    r = Ref(ms)
    for op in ops:
        if op == "disconnected" and r.state == "fresh":
            return False
        if r.state == "broken" and op in ("body", "json", "stream"):
            return False
        r.op(op)
    return ops[-1] not in ("form", "close") or len(ops) == 1


def engine(ctx):
    eng = ctx.engine(Env26())
    eng.concrete = 100
    return eng


def play(ctx, name, ms, ops):
    eng = engine(ctx)
    st = eng.start_state()
    ref = Ref(ms)
    want = [(ref.op(op), ref.n) for op in ops]
    for k, s, v in call(ctx, eng, st, "play", [lit(eng, st, SCOPE), lit(eng, st, ms), lit(eng, st, list(ops))]):
        ctx.oblige("body")
        what = f"messages {name}, operations {', '.join(ops)}"
        if k != "ok":
            eng.report("body", Q, s, f"{what}: raises {value(s, v)}")
            continue
        for op, (g, gn), (w, wn) in zip(ops, value(s, v), want):
            if g != w:
                eng.report("body", Q + "." + op, s, f"{what}: {op} gives {g}, expected {w}")
                break
            if gn != wn:
                eng.report("channel", Q + "." + op, s, f"{what}: {gn} messages taken after {op}, expected {wn}")
                break
