"""FileResponse against the meaning of Range: constant propagation over a table of Range headers and file sizes.

FileResponse is called for files of several sizes (below, at and above the chunk size, empty), with GET and HEAD, without and
with a Range header from a table of forms (closed, open, suffix, several, overlapping, adjacent, out of order, beyond the end, inverted, malformed)
whose meaning is computed independently.  Reads from the file are terms "bytes a to b of the file", so that the body messages
can be compared with the ranges byte for byte; the declared Content-Length is compared with what is emitted.  With a symbolic If-Range, a
partial answer must have established equality with a validator of the response.
"""
import re

from ..interp import Cut
from ..mw import *
from .common import *
from .c13 import header

CLIENT03 = '''
from starlette.responses import FileResponse

def make(path):
    return FileResponse(path)

def given(path, stat):
    return FileResponse(path, stat_result=stat)

def failed(path):
    return FileResponse(path, status_code=404)

async def twice(path, scope, second, receive, send):
    response = FileResponse(path)
    await response(scope, receive, send)
    await response(second, receive, send)
'''
Q = "starlette.responses.FileResponse"
BIG = 150_000
BOUNDARY = S("boundary")
SIZES = (1000, BIG, 65536, 1, 0)
RANGES = ("bytes=0-4,20-40,25-30", "bytes=0-4,20-24,22-30", "bytes=0-4,20-24,25-30,28-29", "bytes=0-9,90-99", "bytes=5-9,50-99,500-998", "bytes=0-9", "bytes=5-5", "bytes=10-", "bytes=-7", "bytes=0-", "bytes=0-999", "bytes=990-5000", "bytes=-5000", "BYTES = 0-9", "bytes= 1 - 3 ",
          "bytes=0-4,10-19", "bytes=10-19,0-4", "bytes=0-4,5-9", "bytes=0-9,5-14", "bytes=0-4,20-24,3-22", "bytes=20-24,0-4,3-22,40-", "bytes=0-4,-5", "bytes=0-9,0-9",
          "bytes=0-29,10-12,20-49", "bytes=1000-", "bytes=1000-1005", "bytes=999999-", "bytes=-0", "bytes=9-0", "bytes=0-1000", "bytes=0-4,5000-6000", "bytes=0-4,1000-", "bytes=", "bytes=-", "bytes", "items=0-9", "bytes=a-b", "0-9")
LARGE = ("bytes=0-65535", "bytes=0-65536", "bytes=1-65536", "bytes=65536-131071", "bytes=70000-", "bytes=-131072", "bytes=0-131071", "bytes=0-99999,120000-149999", "bytes=0-65535,100000-")


def spec(value, size):
    """("full",), ("bad",), ("unsat",) or ("ranges", [(start, end)]) by the text of a Range header"""
    unit, eq, rest = value.partition("=")
    if not eq or unit.strip().lower() != "bytes":
        return ("bad",)
    out = []
    for part in rest.split(","):
        m = re.fullmatch(r"\s*(\d*)\s*-\s*(\d*)\s*", part)
        if not m or not (m[1] or m[2]):
            continue
        if m[1]:
            out.append((int(m[1]), min(int(m[2]) + 1, size) if m[2] else size))
        else:
            out.append((max(size - int(m[2]), 0), size))
    if not out:
        return ("bad",)
    if any(a >= size for a, b in out):
        return ("unsat",)
    if any(a >= b for a, b in out):
        return ("bad",)
    merged = []
    for a, b in sorted(out):
        if merged and a <= merged[-1][1]:
            merged[-1] = (merged[-1][0], max(b, merged[-1][1]))
        else:
            merged.append((a, b))
    return ("ranges", merged)


class Env03(MwEnv):
    def __init__(self, size, real=None):
        super().__init__()
        self.size, self.real = size, size if real is None else real

    def on_ext(self, eng, st, q, args, kwargs, node):
        if q in ("os.stat", "os.fstat"):
            return ok(st, T("stat", C(0), C("reg")))
        if q in ("stat.S_ISREG", "stat.S_ISDIR"):
            return ok(st, B(q == "stat.S_ISREG"))
        if q == "mimetypes.guess_type":
            return ok(st, Tup([C("image/png"), NONE]))
        if q in ("secrets.token_hex", "secrets.token_urlsafe") and args and is_c(args[0]):
            st.facts[T("len", BOUNDARY)] = Fact(eq=C(2 * cval(args[0])))
            st.facts[BOUNDARY] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]), tr=True)
            return ok(st, BOUNDARY)
        if q == "email.utils.formatdate":
            return ok(st, S("last-modified"))
        if q in ("anyio.open_file", "builtins.open"):
            st.mon["pos"] = 0
            return ok(st, aw("value", T("file", args[0])) if q.startswith("anyio") else T("file", args[0]))
        if q.startswith("hashlib."):
            return ok(st, T("hash", *args))
        return super().on_ext(eng, st, q, args, kwargs, node)

    def thread_call(self, eng, st, args, kwargs, node):
        return [(k, s, aw("value", v) if k == "ok" else v) for k, s, v in eng.call(st, args[0], list(args[1:]), {k: v for k, v in kwargs.items() if k not in ("abandon_on_cancel", "cancellable", "limiter")}, node)]

    def aw_value(self, eng, st, args, node):
        return ok(st, args[0])

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        if is_t(recv, "hash"):
            st.facts[S("digest")] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]), tr=True)
            return ok(st, S("digest"))
        if is_t(recv, "file") or is_t(recv, "enter") and is_t(recv.a[1], "file"):
            args = [eng.known(st, a) for a in args]
            if name == "seek" and args and is_c(args[0]):
                st.mon["pos"] = cval(args[0])
                return ok(st, aw("value", args[0]))
            if name == "read" and (not args or is_c(args[0])):
                pos = st.mon["pos"]
                n = cval(args[0]) if args and cval(args[0]) is not None else -1
                left = max(self.real - pos, 0)
                k = left if n < 0 else min(n, left)
                st.mon["pos"] = pos + k
                if k == 0:
                    return ok(st, aw("value", C(b"")))
                t = T("chunk", C(pos), C(pos + k))
                st.facts[T("len", t)] = Fact(eq=C(k))
                st.facts[t] = Fact(isa=frozenset(["builtins.bytes"]), ne=frozenset([NONE]), tr=True)
                return ok(st, aw("value", t))
            if name in ("close", "aclose"):
                return ok(st, aw("value", NONE))
        return super().on_method(eng, st, recv, name, args, kwargs, node)


def run(ctx):
    ctx.rule("full", "without a usable Range the answer has the response's status, the file's size as Content-Length, its validators, and the whole file as its body")
    ctx.rule("single", "one range (after merging overlapping and adjacent ones): 206, Content-Range bytes first-last/size, Content-Length and body of exactly these bytes")
    ctx.rule("multiple", "several ranges: 206 and one part per merged range in order, each with its own Content-Range and exactly its bytes, between boundary lines")
    ctx.rule("multi-length", "the Content-Length of a multi-range answer is the number of bytes emitted")
    ctx.rule("multi-type", "a multi-range answer declares Content-Type multipart/byteranges")
    ctx.rule("refused", "malformed ranges are answered with 400, ranges outside the file with 416 and its size; no byte of the file is sent")
    ctx.rule("if-range", "with If-Range a partial answer is given exactly when it equals the response's ETag or Last-Modified")
    ctx.rule("head", "HEAD has the same status and headers and an empty body")
    ctx.rule("stateless", "serving a range does not change what the same response object answers next")
    ctx.rule("shorter", "a file that became shorter ends the response")
    ctx.client(CLIENT03)
    for method in ("GET", "HEAD"):
        for size in SIZES:
            for rng in (None,) + (RANGES if size == 1000 else LARGE if size == BIG else RANGES[:6]):
                one(ctx, "make", size, rng, method)
        for rng in (None, "bytes=0-9", "bytes=0-4,10-19", "nonsense"):
            one(ctx, "given", 1000, rng, method)
            one(ctx, "failed", 1000, rng, method)
        for rng in ("bytes=0-9", "bytes=0-4,10-19", "bytes=5000-", None):
            one(ctx, "make", 1000, rng, method, ifrange=True)
    for rng in ("bytes=0-9", "bytes=0-4,10-19", "bytes=2000-", "x"):
        one(ctx, "twice", 1000, rng, "GET")
    for rng in (None, "bytes=0-999", "bytes=0-99,200-899", "bytes=0-9,700-899"):
        one(ctx, "make", 1000, rng, "GET", real=500)
    ctx.need("full", 30)
    ctx.need("single", 30)
    ctx.need("multiple", 12)
    ctx.need("refused", 20)
    ctx.need("if-range", 8)
    ctx.need("twice", 4)
    ctx.need("shorter", 4)
    ctx.assume("Range headers are the listed forms; file contents are unknown, reads return as much as asked while the file lasts")


def one(ctx, name, size, rng, method, ifrange=False, real=None):
    try:
        case(ctx, name, size, rng, method, ifrange, real)
    except Cut as ex:
        ctx.undecided(f"{name} {method} {rng} of {size}: {ex}")


def case(ctx, name, size, rng, method, ifrange, real):
    eng = ctx.engine(Env03(size, real))
    eng.max_steps = 30_000
    st = eng.start_state()
    st.facts[T("attr", T("stat", C(0), C("reg")), "st_size")] = Fact(eq=C(size))
    st.facts[T("stat", C(0), C("reg"))] = Fact(ne=frozenset([NONE]), tr=True)
    st.facts[S("path")] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]), tr=True)
    for x in ("last-modified", "if-range"):
        st.facts[S(x)] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]), tr=True)
    st.facts[T("in", C("extensions"), SCOPE)] = Fact(tr=False)

    def scope(st, rng, tag):
        h = [Tup([C(b"host"), C(b"h.example")])]
        if rng is not None:
            h.append(Tup([C(b"range"), C(rng.encode())]))
        if ifrange:
            h.append(Tup([C(b"if-range"), T("m", "encode", S("if-range"), C("latin-1"))]))
        return new_scope(eng, st, "http", method=C(method), headers=eng.new_list(st, "h" + tag, h))
    fn = eng.force(st, eng.p.lookup_global(eng.p.client, name))
    want = ("full",) if rng is None or name == "failed" else spec(rng, size)
    what = f"{method} {rng!r} of {size} bytes"
    if name == "twice":
        a, b = scope(st, rng, "1"), scope(st, None, "2")
        for k, s, v in eng.run_call(st, fn, [S("path"), a, b, RECEIVE, SEND]):
            ctx.oblige("twice")
            ev = [e for e in s.mon["ev"] if e[0] == "fwd"]
            i = next((i for i, e in enumerate(ev) if i and stype(e[1]) == "http.response.start"), None)
            if k != "ok" or i is None:
                eng.report("stateless", Q + ".__call__", s, f"{what} twice: raises {show(v)}")
                continue
            judge(ctx, eng, s, want, sent(ev[:i]), size, 200, method, what)
            judge(ctx, eng, s, ("full",), sent(ev[i:]), size, 200, method, what + ", then without Range", "stateless")
        return
    args = [S("path"), T("stat", C(0), C("reg"))] if name == "given" else [S("path")]
    n = 0
    for k, s, app in eng.run_call(st, fn, args):
        for k, s, v in eng.run_call(s, app, [scope(s, rng, "1"), RECEIVE, SEND]) if k == "ok" else ((k, s, app),):
            n += 1
            if k != "ok":
                eng.report("refused" if want[0] in ("bad", "unsat") else "full", Q + ".__call__", s, f"{what}: raises {show(v)}")
                continue
            if real is not None:
                short(ctx, eng, s, sent(s.mon["ev"]), real, what)
                continue
            w = want
            if ifrange and rng is not None:
                e, l = (validator(eng, s, x) for x in ('"digest"', "last-modified"))
                ctx.oblige("if-range")
                if not (e or l):
                    if e is None or l is None:
                        if sfield(sent(s.mon["ev"])[0], "status") is not C(200):
                            eng.report("if-range", Q + ".__call__", s, f"{what}: a range is used although If-Range was not found to be a validator of the response")
                        else:
                            eng.report("if-range", Q + ".__call__", s, f"{what}: the range is not used although If-Range may be a validator of the response")
                        continue
                    w = ("full",)
            judge(ctx, eng, s, w, sent(s.mon["ev"]), size, 404 if name == "failed" else 200, method, what)
    if not n:
        eng.report("shorter" if real is not None else "full", Q + ".__call__", st, f"{what}: the response does not end")


def validator(eng, s, name):
    for t, f in s.facts.items():
        if is_t(t, "eq") and S("if-range") in t.a[1:] and f.tr is not None:
            o = [x for x in t.a[1:] if x is not S("if-range")]
            if o and (mentions(o[0], S("digest")) if name == '"digest"' else mentions(o[0], S("last-modified"))):
                return f.tr
        if t is S("if-range"):
            for x in ([f.eq] if f.eq is not None else []):
                if mentions(x, S("digest") if name == '"digest"' else S("last-modified")):
                    return True
            for x in f.ne:
                if mentions(x, S("digest") if name == '"digest"' else S("last-modified")):
                    return False
    return None


def sent(ev):
    return [e[1] for e in ev if e[0] == "fwd"]


def flat(eng, s, t):
    """bytes as a list of constants, BOUNDARY and chunks; None if something else is in it"""
    t = eng.known(s, t)
    if is_c(t):
        v = cval(t)
        return [v] if isinstance(v, bytes) else [str(v).encode("latin-1")] if isinstance(v, (str, int)) else None
    if t is BOUNDARY or is_t(t, "chunk"):
        return [t]
    if is_t(t, "m") and t.a[1] in ("encode", "decode"):
        return flat(eng, s, t.a[2])
    if is_t(t, "concat") or is_t(t, "add"):
        out = []
        for x in t.a[1:]:
            r = flat(eng, s, x)
            if r is None:
                return None
            out += r
        return out
    if is_t(t, "str"):
        return flat(eng, s, t.a[1])
    return None


def size_of(ps):
    return sum(len(p) if isinstance(p, bytes) else 26 if p is BOUNDARY else cval(p.a[2]) - cval(p.a[1]) for p in ps)


def content(eng, s, msgs, rep, rule):
    """(pieces of the whole body) with the message discipline checked"""
    out = []
    if not msgs or stype(msgs[0]) != "http.response.start" or any(stype(m) != "http.response.body" for m in msgs[1:]):
        rep(rule, "the messages are not one start and then body messages")
        return None
    for i, m in enumerate(msgs[1:]):
        more = sfield(m, "more_body", FALSE)
        if (eng.truth(s, more) is True) != (i < len(msgs) - 2):
            rep(rule, "the last body message is not exactly the one without more_body")
        b = flat(eng, s, sfield(m, "body", C(b"")))
        if b is None:
            rep(rule, f"the body contains {show(sfield(m, 'body'))}")
            return None
        out += b
    if len(msgs) < 2:
        rep(rule, "there is no body message")
    return out


def bytes_of(ps):
    """the chunk pieces joined into maximal intervals; constants and boundary kept"""
    out = []
    for p in ps:
        if p == b"":
            continue
        if isinstance(p, bytes) or p is BOUNDARY:
            p = p if isinstance(p, bytes) else b"\0B\0"
            if out and isinstance(out[-1], bytes):
                out[-1] += p
            else:
                out.append(p)
        else:
            a, b = cval(p.a[1]), cval(p.a[2])
            if out and isinstance(out[-1], tuple) and out[-1][1] == a:
                out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
    return out


def judge(ctx, eng, s, want, msgs, size, status, method, what, rule=None):
    rep = lambda r, text: eng.report(rule or r, Q + ".__call__", s, f"{what}: {text}")
    head = method == "HEAD"
    kind = want[0]
    name = {"full": "full", "bad": "refused", "unsat": "refused"}.get(kind) or ("single" if len(want[1]) == 1 else "multiple")
    ctx.oblige(name)
    ps = content(eng, s, msgs, rep, name)
    if ps is None:
        return
    st0 = msgs[0]
    got = bytes_of(ps)
    h = lambda n: text(eng, s, header(eng, s, st0, n))
    code = {"full": status, "bad": 400, "unsat": 416}.get(kind, 206)
    if sfield(st0, "status") is not C(code):
        return rep(name, f"answered with status {show(sfield(st0, 'status'))}, expected {code}")
    if head and got and kind not in ("bad", "unsat"):
        return rep("head", "HEAD is answered with a body")
    if kind in ("bad", "unsat"):
        if any(isinstance(x, tuple) for x in got):
            rep(name, "bytes of the file are sent")
        if kind == "unsat" and h("content-range") not in (f"*/{size}", f"bytes */{size}"):
            rep(name, f"Content-Range is {h('content-range')}")
        return
    for v in ("etag", "last-modified", "accept-ranges"):
        if header(eng, s, st0, v) is None:
            rep(name, f"{v} is missing")
    if kind == "full":
        if h("content-range") is not None:
            rep(name, f"Content-Range {h('content-range')} in a full answer")
        if h("content-length") != str(size):
            rep(name, f"Content-Length {h('content-length')}, expected {size}")
        if h("content-type") != "image/png":
            rep(name, f"Content-Type is {h('content-type')}")
        if not head and got != ([(0, size)] if size else []):
            rep(name, f"body {got}, expected the whole file")
        return
    rs = want[1]
    if len(rs) == 1:
        a, b = rs[0]
        if h("content-range") != f"bytes {a}-{b - 1}/{size}":
            rep(name, f"Content-Range is {h('content-range')}, expected bytes {a}-{b - 1}/{size}")
        if h("content-length") != str(b - a):
            rep(name, f"Content-Length is {h('content-length')}, expected {b - a}")
        if h("content-type") != "image/png":
            rep(name, f"Content-Type is {h('content-type')}")
        if not head and got != [(a, b)]:
            rep(name, f"body {got}, expected bytes {a} to {b - 1}")
        return
    ct = h("content-type")
    if ct is None or not ct.startswith("multipart/byteranges"):
        eng.report(rule or "multi-type", Q + ".__call__", s, "the Content-Type of a multi-range answer is not multipart/byteranges")
    expected = multipart(rs, size)
    if not head:
        texts = [x for x in got if isinstance(x, bytes)]
        if [x for x in got if isinstance(x, tuple)] != rs or len(texts) != len(rs) + 1 or isinstance(got[0], tuple) or isinstance(got[-1], tuple):
            return rep(name, f"parts {[x for x in got if isinstance(x, tuple)]}, expected {rs}")
        for i, ((a, b), t) in enumerate(zip(rs, texts)):
            lines = t.decode("latin-1").replace("\r\n", "\n")
            m = re.fullmatch("\n*--\0B\0\n(?:[^\n]+\n)+\n", lines) if i == 0 else re.fullmatch("\n+--\0B\0\n(?:[^\n]+\n)+\n", lines)
            heads = [l.partition(":") for l in lines.strip("\n").split("\n")[1:]]
            heads = {k.lower(): v.strip() for k, _, v in heads}
            if not m:
                rep(name, f"a part starts with {lines!r}")
            if heads.get("content-range") != f"bytes {a}-{b - 1}/{size}":
                rep(name, f"a part has Content-Range {heads.get('content-range')}, expected bytes {a}-{b - 1}/{size}")
            if heads.get("content-type") != "image/png":
                rep(name, f"a part has Content-Type {heads.get('content-type')}")
        if not re.fullmatch("\n+--\0B\0--\n*", texts[-1].decode("latin-1").replace("\r\n", "\n")):
            rep(name, f"the body ends with {texts[-1]!r}")
    n = size_of(ps) if not head else None
    cl = h("content-length")
    if not (cl or "").isdigit():
        rep(name, f"Content-Length is {cl}")
    elif n is not None and int(cl) != n:
        eng.report(rule or "multi-length", Q + ".__call__", s, "the declared Content-Length is one byte less than the body" if n - int(cl) == 1 else f"{what}: Content-Length is {cl} for a body of {n} bytes")
    elif n is None and int(cl) - expected not in (0, -1):
        rep("head", f"Content-Length is {cl}, GET has {expected} or {expected - 1}")
    if b"\0B\0" not in (h("content-range") or h("content-type") or "").encode("latin-1") and "multipart/byteranges; boundary=" not in (ct or h("content-range") or ""):
        rep(name, "the boundary is not declared")


def multipart(rs, size):
    return sum(len(f"--\nContent-Type: image/png\nContent-Range: bytes {a}-{b - 1}/{size}\n\n\n") + 26 + b - a for a, b in rs) + len("\n----\n") + 26


def text(eng, s, v):
    if v is None:
        return None
    ps = flat(eng, s, v)
    return b"".join(p if isinstance(p, bytes) else b"\0B\0" for p in ps).decode("latin-1") if ps is not None else show(v)


def short(ctx, eng, s, msgs, real, what):
    ctx.oblige("shorter")
    rep = lambda r, text: eng.report("shorter", Q + ".__call__", s, f"{what}, shortened to {real}: {text}")
    ps = content(eng, s, msgs, rep, "shorter")
    if ps is not None and any(isinstance(x, tuple) and x[1] > real for x in bytes_of(ps)):
        rep("shorter", "more is sent than the file has")
