"""Form parsing against the parts that were sent, by constant propagation through client programs.

The multipart and query-string parsers and the temporary files are models (written as client classes) that play a given history of
parser callbacks; Request.form and everything below it is interpreted.  Every form of a family is cut into messages in several ways and
parsed under several limits, whole, disconnected at every message, and with the parser failing at every message.
"""
import re

from ..mw import *
from .c30 import call, lit, seq
from .common import *

CLIENT20 = '''
from starlette.requests import Request
from starlette.datastructures import UploadFile
from starlette.formparsers import MultiPartParser

FILES = []

class Spool:
    def __init__(self, max_size=0, mode="w+b", *args, **kwargs):
        self._max_size = max_size
        self._rolled = False
        self.data = b""
        self.pos = 0
        self.closed = False
        FILES.append(self)

    def write(self, x):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        x = bytes(x)
        self.data = self.data[:self.pos] + x + self.data[self.pos + len(x):]
        self.pos = self.pos + len(x)
        if self._max_size and len(self.data) > self._max_size:
            self._rolled = True
        return len(x)

    def seek(self, offset, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.pos = offset
        return offset

    def tell(self):
        return self.pos

    def read(self, size=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        end = len(self.data) if size is None or size < 0 else self.pos + size
        x = self.data[self.pos:end]
        self.pos = self.pos + len(x)
        return x

    def close(self):
        self.closed = True

class ByteArray:
    def __init__(self, data=b""):
        self.b = bytes(data)
    def __len__(self):
        return len(self.b)
    def __bytes__(self):
        return self.b
    def __iadd__(self, x):
        self.b = self.b + bytes(x)
        return self
    def __add__(self, x):
        return ByteArray(self.b + bytes(x))
    def __getitem__(self, k):
        return self.b[k]
    def extend(self, x):
        self.b = self.b + bytes(x)
    def clear(self):
        self.b = b""
    def decode(self, encoding="utf-8", errors="strict"):
        return self.b.decode(encoding, errors)

class Cancelled(BaseException):
    pass

class ParserError(ValueError):
    pass

class Parser:
    def __init__(self, script, callbacks):
        self.script = script
        self.callbacks = callbacks
        self.finalized = 0

    def run(self, events):
        for e in events:
            if e[0] == "error":
                raise ParserError("malformed")
            f = self.callbacks.get(e[0])
            if f is not None:
                f(*e[1:])

    def write(self, data):
        self.run(self.script.get(data, []))
        return len(data)

    def finalize(self):
        self.finalized = self.finalized + 1
        self.run(self.script.get("final", []))

def describe(form):
    out = []
    for k, v in form.multi_items():
        if isinstance(v, UploadFile):
            out.append((k, v.filename, v.size, v.content_type, v.headers.items(), v.file.data, v.file.pos, v.file.closed, v.file._rolled))
        else:
            out.append((k, v))
    return out

def request(scope, messages):
    async def receive():
        message = messages.pop(0)
        if message["type"] == "cancel":
            raise Cancelled()
        return message
    return Request(scope, receive)

async def parse(scope, messages, limits, spool, cached):
    if spool is not None:
        MultiPartParser.spool_max_size = spool
    r = request(scope, messages)
    if cached:
        await r.body()
    form = await r.form(**limits)
    again = await r.form()
    first = describe(form)
    opened = [f.closed for f in FILES]
    await r.close()
    return first, form is again, opened, [f.closed for f in FILES]

async def unused(scope, messages, limits, read):
    r = request(scope, messages)
    if read:
        await r.body()
    await r.close()
    await r.close()
    return [len(messages), len(FILES)]

async def apart(scope, messages, scope2, messages2):
    one = describe(await request(scope, messages).form())
    two = describe(await request(scope2, messages2).form())
    return one, two

async def failing(scope, messages, limits):
    r = request(scope, messages)
    try:
        form = await r.form(**limits)
    except BaseException as exc:
        return True, exc, getattr(exc, "status_code", None), [f.closed for f in FILES]
    return False, None, None, [f.closed for f in FILES]

async def context(scope, messages, limits, fail):
    r = request(scope, messages)
    try:
        async with r.form(**limits) as form:
            first = describe(form)
            if fail:
                raise KeyError("inside")
    except KeyError:
        return first, True, [f.closed for f in FILES]
    return first, False, [f.closed for f in FILES]
'''
Q = "starlette.requests.Request.form"
INF = float("inf")


class Part:
    def __init__(self, name, data, filename=None, ctype=None, extra=()):
        self.name, self.data, self.filename, self.ctype, self.extra = name, data, filename, ctype, tuple(extra)

    def headers(self):
        out = []
        if self.name is not None or self.filename is not None:
            d = b"form-data" + (b'; name="' + self.name + b'"' if self.name is not None else b"") + (b'; filename="' + self.filename + b'"' if self.filename is not None else b"")
            out.append((b"Content-Disposition", d))
        if self.ctype:
            out.append((b"Content-Type", self.ctype))
        return out + list(self.extra)


def decoded(x, codec):
    try:
        return x.decode(codec)
    except (UnicodeDecodeError, LookupError):
        return x.decode("latin-1")


F, U = Part, lambda name, data, fn=b"f.txt", ct=b"text/plain", extra=(): Part(name, data, fn, ct, extra)
FORMS = {
    "empty": [],
    "one field": [F(b"a", b"1")],
    "fields": [F(b"a", b"one"), F(b"b", b""), F(b"a", "zwölf".encode()), F(b"c", b"\xff\xfe")],
    "one file": [U(b"f", b"hello")],
    "empty file": [U(b"f", b"", b"", None)],
    "mixed": [F(b"a", b"xy"), U(b"f", b"abcdef", b"one.bin", b"application/x", [(b"X-Extra", b"e")]), F("b\u00f6".encode(), b"z"), U(b"f", b"gh", "zw\u00f6.txt".encode(), None), U(b"n\xe9", b"", b"n\xe9"), F(b"a", b"last")],
    "big": [U(b"big", b"0123456789" * 3), F(b"a", b"1"), U(b"small", b"s")],
}
SPLITS = ("whole", "events", "bytes")


def atoms(part, fine):
    yield ("on_part_begin",)
    for k, v in part.headers():
        yield ("on_header_begin",)
        for x, nm in ((k, "on_header_field"), (v, "on_header_value")):
            for y in ([x[:3], x[3:]] if fine else [x]):
                yield (nm, b"~~" + y + b"~", 2, 2 + len(y))
        yield ("on_header_end",)
    yield ("on_headers_finished",)
    for y in ([part.data[i:i + 2] for i in range(0, len(part.data), 2)] if fine else [part.data] if part.data else []):
        yield ("on_part_data", b"-" + y + b"--", 1, 1 + len(y))
    yield ("on_part_end",)


def script(form, split):
    """the callbacks of each chunk"""
    ev = [a for p in form for a in atoms(p, split == "bytes")] + [("on_end",)]
    if split == "whole":
        return [ev]
    if split == "events":
        return [ev[i:i + 3] for i in range(0, len(ev), 3)]
    return [[e] for e in ev]


def expected(form, charset="utf-8", spool=1024 * 1024):
    out = []
    for p in form:
        name = decoded(p.name, charset)
        if p.filename is None:
            out.append((name, decoded(p.data, charset)))
        else:
            hs = [(k.decode("latin-1").lower(), v.decode("latin-1")) for k, v in p.headers()]
            out.append((name, decoded(p.filename, charset), len(p.data), p.ctype.decode() if p.ctype else None, hs, p.data, 0, False, len(p.data) > spool))
    return out


class Env20(MwEnv):
    script = None

    def thread_call(self, eng, st, args, kwargs, node):
        kw = {k: v for k, v in kwargs.items() if k not in ("abandon_on_cancel", "cancellable", "limiter")}
        return ok(st, aw("thread", args[0], Tup(args[1:]), Tup([Tup([C(k), v]) for k, v in sorted(kw.items())])))

    def aw_thread(self, eng, st, args, node):
        return list(eng.call(st, args[0], list(args[1].a), {cval(x.a[0]): x.a[1] for x in args[2].a}, node))

    def on_ext(self, eng, st, q, args, kwargs, node):
        def model(name, a, kw):
            return list(eng.call(st, eng.force(st, eng.p.lookup_global(eng.p.client, name)), a, kw, node))
        if q == "tempfile.SpooledTemporaryFile":
            return model("Spool", args, kwargs)
        if q == "builtins.bytearray":
            return model("ByteArray", args, kwargs)
        last = q.rsplit(".", 1)[-1]
        if q.startswith(("python_multipart.", "multipart.")):
            if last == "MultipartParser":
                return model("Parser", [self.script, args[1] if len(args) > 1 else kwargs["callbacks"]], {})
            if last == "QuerystringParser":
                return model("Parser", [self.script, args[0] if args else kwargs["callbacks"]], {})
            if last == "parse_options_header":
                return options(eng, st, eng.known(st, args[0]), node)
        return super().on_ext(eng, st, q, args, kwargs, node)


def options(eng, st, v, node):
    """the options of a header value, for the forms the check uses"""
    if not is_c(v):
        return None
    v = cval(v)
    if v is None:
        return ok(st, Tup([C(b""), eng.new_dict(st, node, {}, None)]))
    if isinstance(v, str):
        v = v.encode("latin-1")
    first, *rest = v.split(b";")
    d = {}
    for r in rest:
        k, _, x = r.strip().partition(b"=")
        d[C(k.lower())] = C(x.strip(b'"'))
    return ok(st, Tup([C(first.strip().lower()), eng.new_dict(st, node, d, None)]))


def value(s, v):
    """python value of abstract containers"""
    if v.tag == "ref":
        o = s.heap[v]
        if o.kind == "dict" and o.base is None:
            return {value(s, k): value(s, x) for k, x in o.d.items() if x is not ABSENT}
        if o.kind == "list":
            return [value(s, x) for x in o.items]
        if o.kind == "inst":
            return "<" + (o.cls.qual if isinstance(o.cls, ClassInfo) else o.cls.a[0]) + ">"
    if v.tag == "tup":
        return tuple(value(s, x) for x in v.a)
    return cval(v) if is_c(v) else f"<{show(v)}>"


class Case:
    def __init__(self, ctx, form, split, app=False, ctype="multipart/form-data; boundary=XX", end=None, limits=None, chunks=None, final=None, charset="utf-8"):
        self.ctx = ctx
        self.env = Env20()
        self.eng = eng = ctx.engine(self.env)
        eng.concrete = 3000
        eng.models = {k: f for k, f in eng.models.items() if not k.startswith(("starlette.datastructures.Headers.", "starlette.datastructures.MutableHeaders."))}
        self.st = st = eng.start_state()
        self.form = form = FORMS[form] if isinstance(form, str) and chunks is None else form
        chunks = script(form, split) if chunks is None else chunks
        sc = {f"chunk{i}".encode(): list(c) for i, c in enumerate(chunks)}
        if final is not None:
            sc["final"] = final
        ms = [{"type": "http.request", "body": f"chunk{i}".encode(), "more_body": True} for i in range(len(chunks))] + [{"type": "http.request", "body": b"", "more_body": False}]
        if end is not None:
            kind, n = end
            if kind == "malformed":
                sc[f"chunk{n}".encode()] = sc[f"chunk{n}".encode()][:1] + [("error",)]
            else:
                ms[n:] = [{"type": {"disconnect": "http.disconnect", "cancelled": "cancel"}[kind]}]
        self.env.script = lit(eng, st, sc)
        scope = {"type": "http", "method": "POST", "headers": [(b"content-type", ctype.encode())] if ctype else []}
        if app:
            scope["app"] = "the app"
        self.args = [lit(eng, st, scope), lit(eng, st, ms), lit(eng, st, limits or {})]
        name = next((k for k, f in FORMS.items() if f is form), form if isinstance(form, str) else "")
        self.what = f"form {name} cut by {split}" + (f", limits {limits}" if limits else "") + (f", {end[0]} at message {end[1]}" if end else "") + (" in an application" if app else "") + ("" if ctype and ctype.endswith("boundary=XX") else f", content type {ctype}")

    def play(self, fn, *more):
        for k, s, v in call(self.ctx, self.eng, self.st, fn, [*self.args, *more]):
            yield k, s, v, (lambda rule, t, s=s: self.eng.report(rule, Q, s, f"{self.what}: {t}"))


def run(ctx):
    ctx.rule("items", "form() gives one item per part, in order, with the name, the text or the file name, headers, size and content of the part, positioned at the start, however the body was cut into messages; asking again gives the same form")
    ctx.rule("limits", "a form with more files, fields or a larger field than allowed fails with MultiPartException, in an application with a 400 response; a form within the limits does not")
    ctx.rule("closed", "every temporary file is closed when parsing fails, when the form is closed and when its context is left, and not before")
    ctx.client(CLIENT20)
    for form in FORMS:
        for split in SPLITS:
            whole(ctx, form, split)
        whole(ctx, form, "events", app=True)
        whole(ctx, form, "events", spool=4)
        whole(ctx, form, "bytes", spool=3)
        whole(ctx, form, "whole", cached=True)
        whole(ctx, form, "bytes", ctype="multipart/form-data; boundary=XX; charset=latin-1")
        whole(ctx, form, "whole", ctype="Multipart/Form-Data; charset=unknown; boundary=XX")
        context(ctx, form)
        apart(ctx, form)
        limits(ctx, form)
        for n in range(len(script(FORMS[form], "events"))):
            for kind in ("disconnect", "malformed", "cancelled"):
                failing(ctx, form, "events", end=(kind, n))
    for app in (False, True):
        failing(ctx, "mixed", "whole", ctype="multipart/form-data", app=app, broken=True)
        failing(ctx, "mixed", "whole", ctype="multipart/form-data; charset=utf-8", app=app, broken=True)
        failing(ctx, [U(b"x", b"1"), Part(None, b"data")], "events", app=app, broken=True)
        failing(ctx, [U(b"x", b"1"), Part(None, b"data", b"file")], "events", app=app, broken=True)
        failing(ctx, [U(b"x", b"1"), Part(None, b"data", extra=[(b"X-Y", b"z")])], "events", app=app, broken=True)
    unused(ctx, "mixed", False)
    unused(ctx, "mixed", True)
    for ctype in (None, "text/plain", "application/json", "multipart/mixed; boundary=XX"):
        nothing(ctx, ctype)
    for name in PAIRS:
        for split in SPLITS:
            urlencoded(ctx, name, split)
    M = 1024 * 1024
    for n, good in ((M, True), (M + 1, False)):
        f = [F(b"a", b"x" * n)]
        whole(ctx, f, "whole") if good else failing(ctx, f, "whole", broken=True)
    n = 1000
    for what, mk in (("files", lambda i: U(b"f", b"", b"n")), ("fields", lambda i: F(b"a", b""))):
        if ctx.tier == "thorough":
            whole(ctx, [mk(i) for i in range(n)], "whole")
            failing(ctx, [mk(i) for i in range(n + 1)], "whole", broken=True)
    ctx.need("items", 40)
    ctx.need("limits", 40)
    ctx.need("closed", 100)
    ctx.assume("python_multipart's parsers call back once per construct, with the data in any number of pieces")
    ctx.assume("SpooledTemporaryFile stores what is written")


def whole(ctx, form, split, limits=None, app=False, spool=None, cached=False, ctype="multipart/form-data; boundary=XX", rule="items"):
    c = Case(ctx, form, split, limits=limits, app=app, ctype=ctype)
    m = re.search("charset=([^;]*)", ctype)
    want = expected(c.form, m.group(1) if m else "utf-8", spool or 1024 * 1024)
    for k, s, v, rep in c.play("parse", C(spool), B(cached)):
        ctx.oblige(rule)
        if k != "ok":
            rep(rule, f"raises {value(s, v)}")
            continue
        first, same, opened, closed = value(s, v)
        if first != want:
            rep(rule, f"gives {str(first)[:300]}, sent {str(want)[:300]}")
        if same is not True:
            rep("items", "asking again gives another form")
        if any(x is not False for x in opened):
            rep("closed", "a file of the returned form is closed")
        if not all(x is True for x in closed) or len(closed) != sum(p.filename is not None for p in c.form):
            rep("closed", f"after close() the files are {closed}")


def unused(ctx, form, read):
    """close() of a request whose form was never asked for does nothing"""
    c = Case(ctx, form, "events")
    for k, s, v, rep in c.play("unused", B(read)):
        ctx.oblige("closed")
        if k != "ok" or value(s, v)[1] != 0 or read and value(s, v)[0] != 0:
            rep("closed", f"close() without form(): {k} {value(s, v)!r}")


def failing(ctx, form, split, end=None, limits=None, app=False, ctype="multipart/form-data; boundary=XX", broken=False):
    """parsing does not succeed; `broken`: the client is to blame"""
    c = Case(ctx, form, split, end=end, limits=limits, app=app, ctype=ctype)
    for k, s, v, rep in c.play("failing"):
        ctx.oblige("limits" if broken else "closed")
        if k != "ok":
            rep("limits", f"raises {value(s, v)}")
            continue
        raised, exc, status, closed = value(s, v)
        if raised is not True:
            rep("limits" if broken else "items", "is accepted")
            continue
        if broken and app and (exc != "<starlette.exceptions.HTTPException>" or status != 400):
            rep("limits", f"fails with {exc}, status {status}")
        if broken and not app and exc != "<starlette.formparsers.MultiPartException>":
            rep("limits", f"fails with {exc}")
        if end and end[0] == "disconnect" and exc != "<starlette.requests.ClientDisconnect>":
            rep("items", f"fails with {exc}")
        if not all(x is True for x in closed):
            rep("closed", f"after {exc} the temporary files are {['closed' if x is True else 'open' for x in closed]}")


def context(ctx, form):
    for fail in (False, True):
        c = Case(ctx, form, "events")
        for k, s, v, rep in c.play("context", B(fail)):
            ctx.oblige("closed")
            if k != "ok":
                rep("closed", f"raises {value(s, v)}")
                continue
            first, left, closed = value(s, v)
            if first != expected(FORMS[form]) or left is not fail:
                rep("items", f"gives {first!r}")
            if not all(x is True for x in closed):
                rep("closed", f"after the context the files are {closed}")


def apart(ctx, form):
    c, d = Case(ctx, form, "whole"), Case(ctx, form, "whole")
    more = [lit(c.eng, c.st, value(d.st, a)) for a in d.args[:2]]
    c.args = c.args[:2]
    for k, s, v, rep in c.play("apart", *more):
        ctx.oblige("items")
        if k != "ok" or value(s, v) != (expected(FORMS[form]),) * 2:
            rep("items", f"a second request gives {str(value(s, v))[:300]}")


def limits(ctx, form):
    parts = FORMS[form]
    files = sum(p.filename is not None for p in parts)
    fields = len(parts) - files
    size = max((len(p.data) for p in parts if p.filename is None), default=0)
    for split in ("whole", "bytes"):
        whole(ctx, form, split, {"max_files": files, "max_fields": fields, "max_part_size": size}, rule="limits")
        whole(ctx, form, split, {"max_files": INF, "max_fields": INF}, rule="limits")
        for app in (False, True):
            for key, n in (("max_files", files), ("max_fields", fields), ("max_part_size", size)):
                if n:
                    failing(ctx, form, split, limits={key: n - 1}, app=app, broken=True)


def nothing(ctx, ctype):
    c = Case(ctx, "mixed", "whole", ctype=ctype)
    for k, s, v, rep in c.play("parse", NONE, FALSE):
        ctx.oblige("items")
        if k != "ok" or value(s, v)[0] != []:
            rep("items", f"gives {value(s, v)}")


PAIRS = {
    "none": [],
    "pairs": [(b"a", b"1", "a", "1"), (b"b+c", b"%20x%C3%A9+y", "b c", " xé y"), (b"a", b"2", "a", "2"), (b"%3D", b"", "=", "")],
    "raw": [(b"n", b"\xff%FF", "n", "ÿ\ufffd")],
}


def urlencoded(ctx, name, split):
    fine = split == "bytes"
    ev = []
    cut = lambda x: [x[i:i + 2] for i in range(0, len(x), 2)] if fine else [x] if x else []
    for n, x, _, _ in PAIRS[name]:
        ev += [("on_field_start",)] + [("on_field_name", b"-" + y + b"--", 1, 1 + len(y)) for y in cut(n)]
        ev += [("on_field_data", b"==" + y + b"-", 2, 2 + len(y)) for y in cut(x)] + [("on_field_end",)]
    last = ev[-1:] + [("on_end",)]
    ev = ev[:-1]
    k = {"whole": len(ev) or 1, "events": 3, "bytes": 1}[split]
    c = Case(ctx, "urlencoded " + name, split, ctype="application/x-www-form-urlencoded", chunks=[ev[i:i + k] for i in range(0, len(ev), k)], final=last)
    want = [(n, x) for _, _, n, x in PAIRS[name]]
    for k, s, v, rep in c.play("parse", NONE, FALSE):
        ctx.oblige("items")
        if k != "ok":
            rep("items", f"raises {value(s, v)}")
        elif value(s, v)[0] != want:
            rep("items", f"gives {value(s, v)[0]!r}, sent {want!r}")
        elif value(s, v)[1] is not True:
            rep("items", "asking again gives another form")
