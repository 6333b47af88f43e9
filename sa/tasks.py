"""Task groups, events and rendezvous channels, sequentialised.

A task started in a group runs at once, to its end: what it sends through a channel is queued for the parent.  The schedules
in which the parent finishes first are covered by forks inside the task: at a send or at a wait the parent may already be
done, i.e. every event is set and every receiving end is closed (`early`); at the end of the path it is checked that the
parent really does so, otherwise the task would hang.  A task that waits for an event is parked and restarted when the event
is set; a task that fails cancels its group, whose exit raises an exception group."""
from __future__ import annotations

from .mw import *

ASYNC_SRC = '''
import anyio

class Event:
    def __init__(self):
        self.flag = False
        self.really = False
    def set(self):
        self.flag = True
        self.really = True
        env_set(self)
    def is_set(self):
        return self.flag
    async def wait(self):
        if not self.flag:
            await env_block(self)

class Channel:
    def __init__(self):
        self.items = []
        self.send_closed = False
        self.recv_closed = False

class SendStream:
    def __init__(self, chan):
        self.chan = chan
    async def send(self, item):
        if self.chan.send_closed:
            raise anyio.ClosedResourceError
        if self.chan.recv_closed or env_early_send(self.chan):
            raise anyio.BrokenResourceError
        self.chan.items.append(item)
        env_delivered(item)
    def send_nowait(self, item):
        if self.chan.send_closed:
            raise anyio.ClosedResourceError
        if self.chan.recv_closed or env_early_send(self.chan):
            raise anyio.BrokenResourceError
        self.chan.items.append(item)
        env_delivered(item)
    def close(self):
        self.chan.send_closed = True
    async def aclose(self):
        self.chan.send_closed = True
    def __enter__(self):
        return self
    def __exit__(self, *exc):
        self.chan.send_closed = True
    async def __aenter__(self):
        return self
    async def __aexit__(self, *exc):
        self.chan.send_closed = True

class ReceiveStream:
    def __init__(self, chan):
        self.chan = chan
    async def receive(self):
        if self.chan.recv_closed:
            raise anyio.ClosedResourceError
        if self.chan.items:
            return self.chan.items.pop(0)
        env_starve(self.chan.send_closed)
        raise anyio.EndOfStream
    async def __anext__(self):
        try:
            return await self.receive()
        except anyio.EndOfStream:
            raise StopAsyncIteration
    async def __aiter__(self):
        for item in list(self.chan.items):
            if self.chan.recv_closed:
                raise anyio.ClosedResourceError
            self.chan.items.pop(0)
            yield item
        if self.chan.recv_closed:
            raise anyio.ClosedResourceError
        env_starve(self.chan.send_closed)
    def close(self):
        self.chan.recv_closed = True
    async def aclose(self):
        self.chan.recv_closed = True
    def __enter__(self):
        return self
    def __exit__(self, *exc):
        self.chan.recv_closed = True
    async def __aenter__(self):
        return self
    async def __aexit__(self, *exc):
        self.chan.recv_closed = True

def make_streams():
    chan = Channel()
    return SendStream(chan), ReceiveStream(chan)
'''
BLOCKED = "ext.Blocked"


class TaskEnv(MwEnv):
    def setup(self, eng):
        super().setup(eng)
        self.eng = eng

    def client_fn(self, eng, st, name):
        return eng.force(st, eng.p.lookup_global(eng.p.client, name))

    def on_ext(self, eng, st, q, args, kwargs, node):
        if q in ("anyio.Event", "asyncio.Event"):
            outs = []
            for k, s, v in eng.call(st, self.client_fn(eng, st, "Event"), [], {}, ("event", eng.nid(node), st.mon.get("nev", 0))):
                s.mon["nev"] = s.mon.get("nev", 0) + 1
                s.mon["events"] = s.mon.get("events", ()) + (v,)
                outs.append((k, s, v))
            return outs
        if q == "anyio.create_memory_object_stream":
            outs = []
            for k, s, v in eng.run_call(st, self.client_fn(eng, st, "make_streams"), []):
                if k == "ok" and v.tag == "tup":
                    s.mon["chans"] = s.mon.get("chans", ()) + ((v.a[0], v.a[1]),)
                outs.append((k, s, v))
            return outs
        return super().on_ext(eng, st, q, args, kwargs, node)

    def call(self, eng, st, fv, args, kwargs, node):
        if fv.tag == "t" and fv.a[0] in ("item", "getitem") and fv.a[1].tag == "ext":
            return self.call(eng, st, fv.a[1], args, kwargs, node)     # Generic[...]() alias
        return super().call(eng, st, fv, args, kwargs, node)

    # --- primitives of the client model
    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "env_block":
            return ok(st, aw("block", *args))
        if name == "env_set":
            return ok(st, NONE)
        if name == "env_delivered":
            self.ev(st, "delivered", snap(eng, st, args[0]))
            return ok(st, NONE)
        if name == "env_starve":
            # all items are consumed; a producer that went on as if the consumer had finished contradicts this
            if args[0] is TRUE and not st.mon.get("early"):
                return ok(st, NONE)
            st.note(eng.loc(node), "waits for an item nobody sends")
            if not st.mon.get("early"):
                self.ev(st, "starved")
                eng.report(*self.starved(eng, st, node))
            return []
        if name == "env_early_send":
            if not self.in_task(st):
                return ok(st, FALSE)
            if st.mon.get("early"):
                return ok(st, TRUE)
            s2 = st.fork()
            self.go_early(eng, s2, "send", node)
            return [("ok", st, FALSE), ("ok", s2, TRUE)]
        return super().on_call(eng, st, name, args, kwargs, node)

    def starved(self, eng, st, node):
        return ("hang", "task", st, "waits for an item that is never sent", node)

    def in_task(self, st):
        return bool(st.mon.get("intask"))

    def go_early(self, eng, st, where, node):
        st.note(eng.loc(node), "the parent has already finished")
        st.mon["early"] = where
        st.mon["early_need"] = st.mon.get("early_need", ()) + ((where, st.mon["tasktg"][0]),)
        for e in st.mon.get("events", ()):
            st.heap[e] = st.heap[e].put("flag", TRUE)

    def aw_block(self, eng, st, args, node):
        return [("raise", st, T("exc", BLOCKED, args[0]))]

    def handler_matches(self, cls):
        return None

    # --- task groups
    def start_soon(self, eng, st, tg, args, kwargs, node):
        fn, rest = args[0], list(args[1:])
        before = st.fork()
        st.mon["tasktg"] = st.mon.get("tasktg", ()) + (tg,)
        st.mon["intask"] = st.mon.get("intask", 0) + 1
        outs = []
        for k, s, v in eng.run_call(st, fn, rest, {}, node):
            s.mon["intask"] = s.mon["intask"] - 1
            s.mon["tasktg"] = s.mon["tasktg"][:-1]
            if k == "raise" and is_t(v, "exc") and v.a[1] == BLOCKED:
                b = before.fork()
                b.mon["parked"] = b.mon.get("parked", ()) + ((tg, fn, tuple(rest)),)
                outs.append(("ok", b, NONE))
            elif k == "raise" and is_t(v, "exc") and v.a[1] == "ext.Cancelled":
                outs.append(("ok", s, NONE))
            elif k == "raise":
                s.note(eng.loc(node), f"the task fails with {show(v)}: its group is cancelled")
                s.mon["tgfail"] = s.mon.get("tgfail", ()) + ((tg, v),)
                s.mon["cancelled"] = s.mon.get("cancelled", frozenset()) | {tg}
                outs.append(("ok", s, NONE))
            else:
                outs.append(("ok", s, NONE))
        return eng.dedupe(outs)

    def wake(self, eng, st, node):
        """run the parked tasks again: [states]"""
        cur = [st]
        parked = st.mon.get("parked", ())
        for t in parked:
            nx = []
            for s in cur:
                s.mon["parked"] = tuple(x for x in s.mon.get("parked", ()) if x != t)
                nx.extend(o[1] for o in self.start_soon(eng, s, t[0], [t[1], *t[2]], {}, node))
            cur = nx
        return cur

    def tg_exit(self, eng, st, cm, k, v, node):
        st.mon["parked"] = tuple(x for x in st.mon.get("parked", ()) if x[0] is not cm)
        fails = [e for t, e in st.mon.get("tgfail", ()) if t is cm]
        st.mon["tgfail"] = tuple(x for x in st.mon.get("tgfail", ()) if x[0] is not cm)
        canc = cm in st.mon.get("cancelled", frozenset()) or k == "raise"
        for where, tg in st.mon.get("early_need", ()):
            if tg is cm and not canc and not self.released(eng, st, where):
                self.ev(st, "hang", where)
        res = []
        for k2, s, v2 in super().tg_exit(eng, st, cm, k, v, node):
            excs = list(fails)
            if k2 == "raise" and is_t(v2, "exc") and v2.a[1] != "ext.Cancelled" and v2.a[1] != BLOCKED:
                excs.insert(0, v2)
            if excs:
                res.append(("raise", s, T("exc", "builtins.ExceptionGroup", Tup(tuple(excs)))))
            else:
                res.append((k2, s, v2))
        return res

    def released(self, eng, st, where):
        """does what the parent did by now let a task go on that waits at `where`?"""
        def fld(ref, name):
            return st.heap[ref].d.get(name)
        if where == "receive":
            return bool(st.mon.get("events")) and all(fld(e, "really") is TRUE for e in st.mon["events"])
        return all(fld(fld(rcv, "chan"), "recv_closed") is TRUE for snd, rcv in st.mon.get("chans", ()))

    def getattr(self, eng, st, b, name, node):
        if name == "exceptions" and is_t(b, "exc") and b.a[1] == "builtins.ExceptionGroup":
            return ok(st, b.a[2])
        return super().getattr(eng, st, b, name, node) if hasattr(super(), "getattr") else None
