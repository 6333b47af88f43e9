"""Response headers against the body: dataflow from constructor arguments to the start message.

Every response class is built with symbolic and constant content, with and without caller-supplied headers, for statuses with
and without a body and several media types, changed through response.headers and set_cookie, and sent.  The headers of the
start message are compared, as terms, with the body message: Content-Length must be the length of the very body that is sent.
"""
from ..interp import Cut
from ..mw import *
from .c03 import sent
from .c34 import Env34
from .common import *

CLIENT43 = '''
from starlette.responses import FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse

def r_Response(content, status, headers, media): return Response(content, status, headers, media)
def r_HTMLResponse(content, status, headers, media): return HTMLResponse(content, status, headers, media)
def r_PlainTextResponse(content, status, headers, media): return PlainTextResponse(content, status, headers, media)
def r_JSONResponse(content, status, headers, media): return JSONResponse(content, status, headers, media)
def r_StreamingResponse(content, status, headers, media): return StreamingResponse(content, status, headers, media)
def r_RedirectResponse(content, status, headers, media): return RedirectResponse(content, status, headers)

class Latin(Response):
    media_type = "text/plain"
    charset = "latin-1"

class Events(StreamingResponse):
    media_type = "text/event-stream"

def r_Events(content, status, headers, media): return Events(content, status, headers, media)
def r_Latin(content, status, headers, media): return Latin(content, status, headers, media)

def hdrs(kind, v):
    if kind == "none": return None
    if kind == "empty": return {}
    if kind == "other": return {"X-Thing": v}
    if kind == "length": return {"Content-Length": v}
    if kind == "type": return {"content-TYPE": v}
    if kind == "both": return {"X-Thing": "a", "CONTENT-LENGTH": "7", "Content-Type": v}

def r_File(path, kw, stat):
    if stat is not None:
        kw["stat_result"] = stat
    return FileResponse(path, **kw)

def changed(order):
    r = Response(b"abc", headers={"X-A": "1", "X-B": "2"})
    if order:
        r.headers["X-C"] = "3"
        r.set_cookie("k", "v")
    else:
        r.set_cookie("k", "v")
        r.headers["x-c"] = "3"
    r.headers["X-b"] = "4"
    del r.headers["X-A"]
    r.headers.append("Set-Cookie", "other")
    return r

def two():
    a = Response(b"abc", headers={"X-A": "1"})
    b = Response(b"defg")
    a.headers["x-only-a"] = "1"
    b.headers["x-only-b"] = "1"
    return b
'''
Q = "starlette.responses."
DEFAULT = {"Response": None, "HTMLResponse": "text/html; charset=utf-8", "PlainTextResponse": "text/plain; charset=utf-8", "JSONResponse": "application/json",
           "StreamingResponse": None, "Events": "text/event-stream; charset=utf-8", "RedirectResponse": None, "Latin": "text/plain; charset=latin-1"}
MEDIA = {None: None, "text/css": "text/css; charset=%s", "text/x; charset=ascii": "text/x; charset=ascii", "text/x;Charset=Big5": "text/x;Charset=Big5", "image/png": "image/png", "application/json": "application/json"}
STREAMS = ("StreamingResponse", "Events")
BODYLESS = (100, 101, 103, 199, 204, 304)
STATUSES = (200, 201, 205, 302, 404, 500) + BODYLESS


class Env43(MwEnv):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "json.dumps":
            t = T("call", q, args[0])
            self.ev(st, "dumps", args[0], tuple(sorted((k, v) for k, v in kwargs.items())), None)
            st.facts[t] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
            return ok(st, t)
        if q == "urllib.parse.quote":
            return ok(st, T("call", q, *args))
        return super().on_ext(eng, st, q, args, kwargs, node)


class EnvFile(Env43):
    """a file with known size and modification time; types, digests and dates of constants are computed"""

    def on_ext(self, eng, st, q, args, kwargs, node):
        import hashlib
        import urllib.parse
        from email.utils import formatdate
        a = [eng.known(st, x) for x in args]
        if q == "mimetypes.guess_type":
            return ok(st, Tup([C(TYPES.get(cval(a[0]).rsplit(".", 1)[-1])), NONE]))
        if q in ("os.stat", "os.path.getsize", "os.path.getmtime"):
            t = T("stat", C(0), C("reg"))
            return ok(st, t if q == "os.stat" else C(self.size if q.endswith("size") else self.mtime))
        if q == "stat.S_ISREG":
            return ok(st, TRUE)
        if q in ("email.utils.formatdate", "urllib.parse.quote") and all(map(is_c, [*a, *kwargs.values()])):
            return ok(st, C((formatdate if q.endswith("date") else urllib.parse.quote)(*map(cval, a), **{k: cval(x) for k, x in kwargs.items()})))
        if q.startswith("hashlib.") and len(a) == 1 and is_c(a[0]):
            return ok(st, T("digest", C(q[8:]), a[0]))
        return super().on_ext(eng, st, q, args, kwargs, node)

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        import hashlib
        if is_t(recv, "digest") and name == "hexdigest":
            return ok(st, C(getattr(hashlib, cval(recv.a[1]))(cval(recv.a[2])).hexdigest()))
        return super().on_method(eng, st, recv, name, args, kwargs, node)

    def getattr(self, eng, st, b, name, node):
        if is_t(b, "stat") and name in ("st_size", "st_mtime", "st_mtime_ns"):
            return ok(st, C({"st_size": self.size, "st_mtime": self.mtime}.get(name, int(self.mtime * 10**9))))
        return super().getattr(eng, st, b, name, node)

    def thread_call(self, eng, st, args, kwargs, node):
        return [(k, s, aw("value", v) if k == "ok" else v) for k, s, v in eng.call(st, args[0], list(args[1:]), {}, node)]

    def aw_value(self, eng, st, args, node):
        return ok(st, args[0])


TYPES = {"txt": "text/plain", "png": "image/png", "html": "text/html"}
OWN = {"ETag": '"own"', "Last-Modified": "Thu, 01 Jan 1970 00:00:00 GMT", "Content-Length": "7", "Accept-Ranges": "none", "Content-Disposition": "inline", "Content-Type": "text/own", "X-Thing": "1"}
FILES = [("/srv/a.txt", {}), ("/srv/a.png", {"filename": None}), ("/srv/strange", {"status_code": 404}), ("/srv/a.txt", {"filename": "b.png"}), ("/srv/a.png", {"filename": "a b.html", "media_type": "image/x"}),
         ("/srv/a", {"filename": "caf\xe9.txt", "content_disposition_type": "inline"}), ("/srv/a", {"filename": "x.y", "content_disposition_type": "inline"}), ("/srv/a", {"filename": 'q";x=y.png'}),
         ("/srv/a.txt", {"media_type": "text/x; charset=ascii"})] + [("/srv/a.txt", {"filename": "f.txt", "headers": {k: v}}) for k, v in OWN.items()] + [("/srv/a.txt", {"filename": "f.txt", "headers": OWN})]


def files(ctx):
    tags = {}
    for path, kw in FILES:
        for size, mtime in ((123, 1700000000.5), (0, 1700000000.5), (123, 1600000000.0)):
            for given in (True, False):
                file(ctx, path, kw, size, mtime, given, tags)


def file(ctx, path, kw, size, mtime, given, tags):
    from email.utils import formatdate
    from urllib.parse import quote
    from .c30 import lit
    env = EnvFile()
    env.size, env.mtime = size, mtime
    eng = ctx.engine(env)
    eng.concrete = 60
    st = eng.start_state()
    t = T("stat", C(0), C("reg"))
    st.facts[t] = Fact(ne=frozenset([NONE]), tr=True)
    what = f"FileResponse({path!r}, {kw}){' with stat_result' if given else ''}: "
    own = {k.lower(): v for k, v in kw.get("headers", {}).items()}
    name = kw.get("filename")
    media = kw.get("media_type") or TYPES.get((name or path).rsplit(".", 1)[-1], "text/plain")
    want = {"content-type": media + ("; charset=utf-8" if media.startswith("text/") and "charset=" not in media else ""), "accept-ranges": "bytes", "content-length": str(size), "last-modified": formatdate(mtime, usegmt=True), "etag": None}
    if name is not None:
        kind = kw.get("content_disposition_type", "attachment")
        want["content-disposition"] = f'{kind}; filename="{name}"' if quote(name) == name else f"{kind}; filename*=utf-8''{quote(name)}"
    want.update(own)
    fn = eng.force(st, eng.p.lookup_global(eng.p.client, "r_File"))
    for k, s, r in eng.run_call(st, fn, [C(path), lit(eng, st, kw), t if given else NONE]):
        outs = eng.run_call(s, r, [new_scope(eng, s, "http", method=C("HEAD"), headers=eng.new_list(s, "rh", [])), RECEIVE, SEND]) if k == "ok" else [(k, s, r)]
        for k, s, v in outs:
            ctx.oblige("file")
            rep = lambda t: eng.report("file", Q + "FileResponse", s, what + t)
            msgs = sent(s.mon.get("ev", ()))
            f = fields(msgs[0]) if k == "ok" and msgs else None
            if f is None:
                rep(f"{k} {show(v)}, {len(msgs)} messages")
                continue
            got = {n.decode("latin-1"): plain(eng, s, x) for n, x in f}
            const_tag = is_c(got.get("etag", NONE))
            got = {n: cval(x) if is_c(x) else show(x) for n, x in got.items()}
            if len(got) != len(f):
                rep(f"repeated headers: {[n for n, _ in f]}")
            tag = got.get("etag")
            if "etag" not in own and tag is not None:
                if not const_tag:
                    ctx.undecided(what + f"the ETag {tag} is not computed")
                    continue
                if not (tag.startswith('"') and tag.endswith('"') and len(tag) > 2):
                    rep(f"the ETag is {tag}")
                if tags.setdefault(tag, (size, mtime)) != (size, mtime):
                    rep("files of other size or modification time have the same ETag")
                if tags.setdefault((size, mtime), tag) != tag:
                    rep("the same file has another ETag")
                got["etag"] = None
            if got != want:
                d = [(n, got.get(n, "absent"), want.get(n, "absent")) for n in sorted({*got, *want}) if got.get(n, 0) != want.get(n, 0)]
                rep("; ".join(f"{n} is {g!r}, expected {w!r}" for n, g, w in d))


def run(ctx):
    ctx.rule("length", "Content-Length is given exactly for bodies known beforehand, not for 1xx, 204 and 304, and is the length in bytes of the body that is sent")
    ctx.rule("type", "Content-Type is the media type, with the charset added to text types that name none")
    ctx.rule("caller", "headers given by the caller are sent with their values, names in lower case, and are not repeated or overridden")
    ctx.rule("body", "the body is the content: bytes as they are, text in the response's charset, nothing for None, JSON as compact UTF-8 that refuses NaN")
    ctx.rule("changes", "changes through response.headers and set_cookie, in any order, are all in the headers that are sent, and in no other response's")
    ctx.rule("location", "a redirect has status 307 unless another is given, an empty body and the quoted URL as Location")
    ctx.rule("file", "a FileResponse declares type, size, date, ETag, Accept-Ranges and, for a file name, Content-Disposition, unless the caller gave these headers")
    ctx.client(CLIENT43)
    for cls in DEFAULT:
        for content in ("text", "bytes", "const", "none") if cls not in ("JSONResponse", "RedirectResponse", *STREAMS) else ("text",):
            for status in STATUSES if content == "text" else (200, 204):
                one(ctx, cls, content, status, "none", None)
            for h in ("empty", "other", "length", "type", "both"):
                one(ctx, cls, content, 200, h, None)
            for m in MEDIA if cls != "RedirectResponse" and content == "text" else ():
                one(ctx, cls, content, 200, "none", m)
                one(ctx, cls, content, 200, "type", m)
    for order in (TRUE, FALSE):
        changed(ctx, order)
    two(ctx)
    files(ctx)
    ctx.need("file", 100)
    ctx.need("length", 100)
    ctx.need("type", 100)
    ctx.need("caller", 50)
    ctx.need("changes", 3)
    ctx.assume("contents are strings, bytes, None or opaque JSON values; len of bytes is their length")


def one(ctx, cls, content, status, h, media):
    try:
        case(ctx, cls, content, status, h, media)
    except Cut as ex:
        ctx.undecided(f"{cls} {content} {status} {h} {media}: {ex}")


def build_and_send(eng, st, name, args):
    fn = eng.force(st, eng.p.lookup_global(eng.p.client, name))
    for k, s, r in eng.run_call(st, fn, args):
        if k != "ok":
            yield k, s, r
            continue
        if name[2:] in STREAMS:
            # only its headers are of interest here: the start message is not sent, its header list is read
            for k2, s2, h in eng.getattr(s, r, "raw_headers", None):
                s2.mon["raw"] = s2.heap[h].items if k2 == "ok" and h.tag == "ref" else None
                yield k2, s2, h
            continue
        for key in ("extensions",):
            s.facts[T("in", C(key), SCOPE)] = Fact(tr=False)
        yield from eng.run_call(s, r, [new_scope(eng, s, "http", method=C("GET"), headers=eng.new_list(s, "rh", [])), RECEIVE, SEND])


def case(ctx, cls, content, status, h, media):
    eng = ctx.engine(Env43())
    eng.max_steps = 50_000
    st = eng.start_state()
    con = Q + {"Latin": "Response", "Events": "StreamingResponse"}.get(cls, cls)
    kind = {"text": "builtins.str", "bytes": "builtins.bytes"}
    val = {"const": C("h\u00e9llo"), "none": NONE}.get(content) or S("content")
    if cls == "JSONResponse":
        pass
    elif val is S("content") and cls not in STREAMS:
        st.facts[val] = Fact(isa=frozenset([kind[content]]), ne=frozenset([NONE]))
    st.facts[S("value")] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]), tr=True)
    fn = eng.force(st, eng.p.lookup_global(eng.p.client, "hdrs"))
    what = f"{cls} with {content} content, status {status}, headers {h}, media type {media!r}"
    for k, s, hv in eng.run_call(st, fn, [C(h), S("value")]):
        for k, s, v in build_and_send(eng, s, "r_" + cls, [val, C(status), hv, C(media) if media else NONE]):
            rep = lambda rule, t: eng.report(rule, con, s, f"{what}: {t}")
            msgs = sent(s.mon.get("ev", ()))
            if k != "ok":
                rep("body", f"raises {show(v)}")
                continue
            if not msgs and cls not in STREAMS:
                rep("body", "nothing is sent")
                continue
            judge(ctx, eng, s, cls, val, content, status, h, media, msgs, rep)


def fields(sn):
    hv = sfield(sn, "headers")
    if hv is None or hv.tag != "snaplist" and hv.tag != "tup":
        return None
    return pairs(hv.a[:-1] if hv.tag == "snaplist" else hv.a)


def pairs(items):
    out = []
    for it in items:
        if it.tag != "tup" or not is_c(it.a[0]):
            return None
        out.append((cval(it.a[0]), it.a[1]))
    return out


def plain(eng, s, t):
    """the string a header value is the encoding of"""
    t = eng.known(s, t)
    if is_c(t):
        return C(cval(t).decode("latin-1")) if isinstance(cval(t), bytes) else t
    if is_t(t, "m") and t.a[1] == "encode" and (len(t.a) < 4 or t.a[3] is C("latin-1") or is_t(t.a[2], "str") and is_t(t.a[2].a[1], "len")):
        return t.a[2]
    return t


def judge(ctx, eng, s, cls, val, content, status, h, media, msgs, rep):
    f = fields(msgs[0]) if cls not in STREAMS else pairs(s.mon["raw"] if s.mon["raw"] is not None else (NONE,))
    if f is None:
        return rep("caller", "the headers are not a list of name and value pairs")
    if msgs and sfield(msgs[0], "status") is not C(status):
        rep("body", f"sent with status {show(sfield(msgs[0], 'status'))}")
    d = {}
    for n, v in f:
        d.setdefault(n, []).append(plain(eng, s, v))
    for n, v in d.items():
        if n != n.lower():
            rep("caller", f"header name {n!r} is not in lower case")
        if len(v) > 1:
            rep("caller", f"{n} is sent {len(v)} times")
    mine = {"other": {b"x-thing": S("value")}, "length": {b"content-length": S("value")}, "type": {b"content-type": S("value")},
            "both": {b"x-thing": C("a"), b"content-length": C("7"), b"content-type": S("value")}}.get(h, {})
    for n, v in mine.items():
        ctx.oblige("caller")
        if not d.get(n) or d[n][0] is not v:
            rep("caller", f"{n.decode()} is {show(d[n][0]) if d.get(n) else 'not sent'}, the caller gave {show(v)}")
    allowed = set(mine) | {b"content-length", b"content-type"} | ({b"location"} if cls == "RedirectResponse" else set())
    if set(d) - allowed:
        rep("caller", f"sends {sorted(set(d) - allowed)}, which nobody asked for")
    body = None
    if cls not in STREAMS:
        bodies = [sfield(m, "body", C(b"")) for m in msgs[1:]]
        if len(bodies) != 1:
            return rep("body", f"{len(bodies)} body messages")
        body = eng.known(s, bodies[0])
        want = expected(eng, s, cls, val, content)
        if body is not want:
            rep("body", f"sends {show(body)}, expected {show(want)}")
        if cls == "JSONResponse":
            du = [e for e in s.mon["ev"] if e[0] == "dumps"]
            opts = dict(du[0][2]) if len(du) == 1 else None
            if opts is None or opts.get("allow_nan") is not FALSE or opts.get("ensure_ascii") is not FALSE or opts.get("indent", NONE) is not NONE or opts.get("separators") not in (C((",", ":")), Tup([C(","), C(":")])):
                rep("body", "JSON is not rendered compactly as UTF-8 without NaN")
    if b"content-length" not in mine:
        ctx.oblige("length")
        got = d.get(b"content-length", [None])[0]
        if cls in STREAMS or status in BODYLESS:
            if got is not None:
                rep("length", f"Content-Length {show(got)} is sent")
        elif got is None:
            rep("length", "no Content-Length is sent")
        elif is_c(body):
            if got is not C(str(len(cval(body)))):
                rep("length", f"Content-Length is {show(got)}, the body has {len(cval(body))} bytes")
        elif got not in lengths(body):
            rep("length", f"Content-Length is {show(got)}, the body is {show(body)}")
    if b"content-type" not in mine:
        ctx.oblige("type")
        got = d.get(b"content-type", [None])[0]
        want = DEFAULT[cls] if media is None else MEDIA[media]
        if want and "%s" in want:
            want %= "latin-1" if cls == "Latin" else "utf-8"
        if (got is None) != (want is None) or got is not None and got is not C(want):
            rep("type", f"Content-Type is {show(got) if got is not None else 'not sent'}, expected {want}")
    if cls == "RedirectResponse":
        loc = d.get(b"location", [None])[0]
        if loc is None or not (is_t(loc, "call") and loc.a[1] == "urllib.parse.quote" and loc.a[2] in (val, T("str", val))):
            rep("location", f"Location is {show(loc) if loc is not None else 'not sent'}")


def lengths(body):
    """forms of the body's length as text (a single-byte charset keeps the length)"""
    bs = [body] + ([body.a[2]] if is_t(body, "m") and body.a[1] == "encode" and body.a[3] in (C("latin-1"), C("ascii")) else [])
    return [T("str", T("len", b)) for b in bs]


def expected(eng, s, cls, val, content):
    if cls == "RedirectResponse" or content == "none":
        return C(b"")
    cs = "latin-1" if cls == "Latin" else "utf-8"
    if cls == "JSONResponse":
        return T("m", "encode", T("call", "json.dumps", val), C("utf-8"))
    if content == "bytes":
        return val
    if content == "const":
        return C(cval(val).encode(cs))
    return T("m", "encode", val, C(cs))


class EnvCookie(Env34, Env43):
    pass


def changed(ctx, order):
    eng = ctx.engine(EnvCookie())
    for k, s, v in build_and_send(eng, eng.start_state(), "changed", [order]):
        msgs = sent(s.mon.get("ev", ()))
        f = fields(msgs[0]) if k == "ok" and msgs else None
        ctx.oblige("changes")
        rep = lambda t: eng.report("changes", Q + "Response.headers", s, t)
        if f is None:
            rep(f"headers changed after construction cannot be sent: {show(v)}")
            continue
        n = [x for x, _ in f]
        d = dict(f)
        if sorted(n) != [b"content-length", b"set-cookie", b"set-cookie", b"x-b", b"x-c"] or d[b"x-c"] is not C(b"3") or d[b"x-b"] is not C(b"4"):
            rep(f"after setting X-C and X-B, deleting X-A, set_cookie and appending Set-Cookie the headers are {n}")


def two(ctx):
    eng = ctx.engine(Env43())
    for k, s, v in build_and_send(eng, eng.start_state(), "two", []):
        msgs = sent(s.mon.get("ev", ()))
        f = fields(msgs[0]) if k == "ok" and msgs else None
        ctx.oblige("changes")
        if f is None or [x for x, _ in f] != [b"content-length", b"x-only-b"]:
            eng.report("changes", Q + "Response.headers", s, f"a header set on one response is sent by another or not at all: {f and [x for x, _ in f]}")
