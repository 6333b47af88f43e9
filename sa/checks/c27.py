"""The lifespan protocol, by constant propagation through client programs.

Applications with every kind of lifespan (context manager class, decorated function, deprecated generator functions, startup and shutdown
handlers) are driven through one lifespan connection; what happens at every step - and each possible failure - is logged and compared
with the order the protocol prescribes.
"""
from itertools import product

from ..mw import *
from .c20 import Env20, value
from .c30 import call, lit
from .common import *

CLIENT27 = '''
from contextlib import asynccontextmanager
from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.routing import Mount, Router

LOG = []
class Boom(Exception):
    pass

class Cancelled(BaseException):
    pass

def fail(where, what):
    if where == what:
        raise Boom(what)

def handlers(bad):
    def up1():
        LOG.append("up1")
        fail(bad, "up1")
    async def up2():
        LOG.append("up2")
        fail(bad, "up2")
    async def down1():
        LOG.append("down1")
        fail(bad, "down1")
    def down2():
        LOG.append("down2")
        fail(bad, "down2")
    return [up1, up2], [down1, down2]

class Manager:
    def __init__(self, app, bad, state):
        self.app = app
        self.bad = bad
        self.state = state

    async def __aenter__(self):
        LOG.append("up1")
        fail(self.bad, "up1")
        return self.state

    async def __aexit__(self, t, exc, tb):
        LOG.append("down1" if exc is None else "down1 failing")
        fail(self.bad, "down1")

class Inner:
    def __init__(self, app):
        self.app = app
    async def __call__(self, scope, receive, send):
        LOG.append("through")
        await self.app(scope, receive, send)

def build(outer, kind, bad, state, empty):
    apps = []
    up, down = ([], []) if empty else handlers(bad)
    kw = {}
    if kind == "handlers":
        kw = {"on_startup": up, "on_shutdown": down}
    elif kind == "none":
        pass
    elif kind == "added":
        pass
    elif kind == "manager":
        def make(app):
            apps.append(app)
            return Manager(app, bad, state)
        kw = {"lifespan": make}
    elif kind == "function":
        @asynccontextmanager
        async def span(app):
            apps.append(app)
            LOG.append("up1")
            fail(bad, "up1")
            try:
                yield state
            except BaseException:
                LOG.append("down1 failing")
                raise
            LOG.append("down1")
            fail(bad, "down1")
        kw = {"lifespan": span}
    elif kind == "asyncgen":
        async def agen(app):
            apps.append(app)
            LOG.append("up1")
            fail(bad, "up1")
            yield state
            LOG.append("down1")
            fail(bad, "down1")
        kw = {"lifespan": agen}
    elif kind == "gen":
        def gen(app):
            apps.append(app)
            LOG.append("up1")
            fail(bad, "up1")
            yield state
            LOG.append("down1")
            fail(bad, "down1")
        kw = {"lifespan": gen}
    if outer == "Starlette":
        app = Starlette(middleware=[Middleware(Inner)], **kw)
    else:
        app = Router(**kw)
    if kind == "added":
        for h in up:
            app.add_event_handler("startup", h)
        for h in down:
            app.add_event_handler("shutdown", h)
    return app, apps

async def play(outer, kind, bad, state, scope, empty):
    app, apps = build(outer, kind, bad, state, empty)
    n = [0]
    async def receive():
        n[0] += 1
        LOG.append(f"receive {n[0]}")
        fail(bad, f"receive {n[0]}")
        if bad == f"cancel {n[0]}":
            raise Cancelled()
        return {"type": "lifespan.startup" if n[0] == 1 else "lifespan.shutdown"}
    async def send(message):
        LOG.append((message["type"], [k for k in message]))
        fail(bad, message["type"])
        if message["type"] == "lifespan.startup.complete":
            LOG.append(("state", dict(scope.get("state", {}))))
    try:
        await app(scope, receive, send)
    except Boom as exc:
        return LOG, "boom", [a is app for a in apps], scope.get("state")
    except Cancelled:
        return LOG, "cancelled", [a is app for a in apps], scope.get("state")
    except RuntimeError:
        return LOG, "error", [a is app for a in apps], scope.get("state")
    return LOG, "done", [a is app for a in apps], scope.get("state")
'''
Q = "starlette.routing.Router.lifespan"
KINDS = {
    "none": ((), ()), "handlers": (("up1", "up2"), ("down1", "down2")), "added": (("up1", "up2"), ("down1", "down2")),
    "manager": (("up1",), ("down1",)), "function": (("up1",), ("down1",)), "asyncgen": (("up1",), ("down1",)), "gen": (("up1",), ("down1",)),
}
STATES = {"nothing": None, "empty": {}, "values": {"db": "pool", "n": "new"}}


class Env27(Env20):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "traceback.format_exc":
            return ok(st, C("the traceback"))
        return super().on_ext(eng, st, q, args, kwargs, node)


def expected(outer, kind, bad, state, has, empty):
    """(log, outcome) of the protocol"""
    ups, downs = KINDS[kind] if not empty else ((), ())
    yields = kind in ("manager", "function", "asyncgen", "gen")
    log = ["through"] if outer == "Starlette" else []
    kind_of = {"receive 1": "boom", "cancel 1": "cancelled", "receive 2": "boom", "cancel 2": "cancelled"}

    def failed(phase):
        log.append((f"lifespan.{phase}.failed", ["type", "message"]))
        return log, "boom"
    log.append("receive 1")
    if bad in ("receive 1", "cancel 1"):
        return log, kind_of[bad]
    for u in ups:
        log.append(u)
        if bad == u:
            return failed("startup")

    def unwind():
        """an exception leaves the body of the context"""
        if kind in ("manager", "function"):
            log.append("down1 failing")
        elif kind in ("handlers", "added"):
            for d in downs:
                log.append(d)
                if bad == d:
                    break
    if yields and state is not None and not has:
        unwind()
        failed("startup")
        return log, "boom" if kind == "manager" and bad == "down1" else "error"
    now = {"old": "o", "n": "old", **(state or {} if yields else {})} if has else {}
    log.append(("lifespan.startup.complete", ["type"]))
    if bad == "lifespan.startup.complete":
        unwind()
        return failed("startup")
    log.append(("state", now))
    log.append("receive 2")
    if bad in ("receive 2", "cancel 2"):
        unwind()
        failed("shutdown")
        return log, kind_of[bad]
    for d in downs:
        log.append(d)
        if bad == d:
            return failed("shutdown")
    log.append(("lifespan.shutdown.complete", ["type"]))
    return log, "boom" if bad == "lifespan.shutdown.complete" else "done"


def run(ctx):
    ctx.rule("order", "a lifespan connection receives, runs the startup code once and in order, publishes the state, sends startup.complete, receives, runs the shutdown code once and in order and sends shutdown.complete; a failure sends the failed message of its phase instead, unwinds the context and propagates")
    ctx.rule("state", "what the lifespan yields is in the scope's state (the same dictionary) when startup is reported complete")
    ctx.rule("app", "the lifespan function gets the application the server called")
    ctx.client(CLIENT27)
    for outer, kind in product(("Starlette", "Router"), KINDS):
        if kind == "none":
            bads = [None, "receive 1", "cancel 1", "receive 2", "cancel 2", "lifespan.startup.complete", "lifespan.shutdown.complete"]
        else:
            bads = [None, *KINDS[kind][0], *KINDS[kind][1], "receive 1", "cancel 1", "receive 2", "cancel 2", "lifespan.startup.complete", "lifespan.shutdown.complete"]
        for bad in bads:
            for st in STATES if kind in ("manager", "function", "asyncgen", "gen") else ("nothing",):
                for has in (False, True):
                    play(ctx, outer, kind, bad, st, has, False)
        if kind in ("handlers", "added"):
            play(ctx, outer, kind, None, "nothing", True, True)
    ctx.need("order", 200)


def play(ctx, outer, kind, bad, state, has, empty):
    env = Env27()
    eng = ctx.engine(env)
    eng.concrete = 20
    st = eng.start_state()
    sc = {"type": "lifespan", "asgi": {}}
    if has:
        sc["state"] = {"old": "o", "n": "old"}
    scope = lit(eng, st, sc)
    same = st.heap[scope].d.get(C("state"))
    what = f"{outer} with {kind}{' (none given)' if empty else ''}, " + (f"{bad} fails, " if bad else "") + f"yielding {state}, scope {'with' if has else 'without'} state"
    want = expected(outer, kind, bad, STATES[state], has, empty)
    for k, s, v in call(ctx, eng, st, "play", [C(outer), C(kind), C(bad), lit(eng, st, STATES[state]), scope, B(empty)]):
        ctx.oblige("order")
        if k != "ok":
            eng.report("order", Q, s, f"{what}: raises {value(s, v)}")
            continue
        log, how, apps, state_now = value(s, v)
        if (log, how) != want:
            eng.report("order", Q, s, f"{what}: {log} -> {how}, expected {want[0]} -> {want[1]}")
        if not all(x is True for x in apps) or (len(apps) != 1 if KINDS[kind][0] and kind not in ("handlers", "added") and bad not in ("receive 1", "cancel 1") else apps and bad not in ("receive 1", "cancel 1")):
            if outer == "Starlette" or apps and len(apps) != 1:
                eng.report("app", Q, s, f"{what}: the lifespan function was called for {apps}")
        if has and v.a[3] is not same:
            eng.report("state", Q, s, f"{what}: the scope has another state dictionary")
