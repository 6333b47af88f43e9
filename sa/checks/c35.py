"""Path analysis of the gzip middleware against an abstract gzip stream.

`gzip.GzipFile`/`io.BytesIO` (and `gzip.compress`, `zlib.compressobj`) are modelled by token streams: a header token, one token
per compressed chunk, one end token; a buffer keeps its contents and its position, so contents that are left behind,
overwritten, padded or dropped show up in the forwarded bodies.  The middleware is built through its constructor with symbolic
options, and its __call__ is interpreted around an application sending whole, streamed, empty, body-less and extension
message sequences with symbolic status, headers and bodies.  On every path the forwarded messages must be the sent ones, one
to one and in order, either untouched apart from Vary, or compressed: header token, every chunk in order, end token, with
Content-Encoding: gzip, a Content-Length that is removed or that of the compressed body, and Vary: Accept-Encoding; and
the branch facts of the path must justify which of the two it is.
"""
from ..mw import *
from .common import *
from .c15 import hvals, plain, csv

Q = "starlette.middleware.gzip.GZipMiddleware"
AE = [C("accept-encoding"), C("Accept-Encoding")]
EXT = lambda n: Msg(n, info=S("info"))

SCRIPTS = [
    [START(), BODY("b0")],
    [START(), BODY("b0", False)],
    [START(), BODY(None)],
    [START(), BODY("b0", True), BODY("b1", True), BODY("b2", False)],
    [START(), BODY("b0", True), BODY("b1")],
    [START(), BODY("b0", True), BODY(None)],
    [START(), BODY("b0", True), BODY("b1", True), BODY("b2", True), BODY(None, False)],
    [START(), BODY(None, True), BODY("b1", False)],
    [Msg("http.response.start", status=S("status")), BODY("b0")],
    [EXT("http.response.push"), START(), BODY("b0")],
    [START(), EXT("http.response.pathsend")],
    [EXT("http.response.debug"), START(), BODY("b0", True), BODY("b1", False), EXT("http.response.trailers")],
]


def gz(*toks):
    return T("gz", *toks)


class Env35(MwEnv):
    def __init__(self, ctx, scripts):
        super().__init__(scripts=scripts)
        self.ctx = ctx

    # --- abstract buffers and compressors: (kind, state) in st.mon["gzobj"]
    def objs(self, st):
        return dict(st.mon.get("gzobj", ()))

    def put(self, st, tok, val):
        d = self.objs(st)
        d[tok] = val
        st.mon["gzobj"] = tuple(sorted(d.items(), key=lambda kv: repr(kv[0])))

    def new(self, st, kind, val):
        n = st.mon.get("gzn", 0)
        st.mon["gzn"] = n + 1
        tok = T("gzobj", kind, n)
        self.put(st, tok, val)
        return tok

    def emit(self, st, buf, *toks):
        if buf is None:
            return
        cont, pos = self.objs(st)[buf]
        for t in toks:
            if pos > len(cont):
                cont = cont + (T("PADDING"),) * (pos - len(cont)) + (t,)
            elif pos == len(cont):
                cont = cont + (t,)
            else:
                cont = cont[:pos] + (T("OVERWRITTEN"),) + cont[pos + 1:]
            pos += 1
        self.put(st, buf, (cont, pos))

    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "io.BytesIO" and not args and not kwargs:
            return ok(st, self.new(st, "buf", ((), 0)))
        if q in ("gzip.GzipFile", "gzip.open"):
            names = ["filename", "mode", "compresslevel", "fileobj", "mtime"]
            kw = dict(zip(names, args))
            kw.update(kwargs)
            f = kw.get("fileobj", kw.get("filename"))
            if f is None or not is_t(f, "gzobj"):
                return None
            if st.mon.get("scope_open") is None:
                eng.report("per-request-stream", Q, st, "the compression stream is created outside the request", node)
            s = self.new(st, "file", (f, "open", kw.get("compresslevel", C(9))))
            self.emit(st, f, T("head"))
            self.level(eng, st, kw.get("compresslevel", C(9)), node)
            return ok(st, s)
        if q == "gzip.compress":
            kw = dict(zip(["data", "compresslevel", "mtime"], args))
            kw.update(kwargs)
            self.level(eng, st, kw.get("compresslevel", C(9)), node)
            return ok(st, gz(T("head"), T("out", kw.get("data", NONE)), T("tail")))
        if q == "zlib.compressobj":
            kw = dict(zip(["level", "method", "wbits", "memLevel"], args))
            kw.update(kwargs)
            w = kw.get("wbits", C(15))
            fmt = "head" if is_c(w) and 25 <= cval(w) <= 31 else "ZLIBHEAD"
            self.level(eng, st, kw.get("level", C(-1)), node)
            return ok(st, self.new(st, "zobj", ("new", fmt)))
        return None

    def level(self, eng, st, lv, node):
        self.ctx.oblige("compressor created")
        if lv is not S("compresslevel"):
            eng.report("configured-level", Q, st, f"compression level is {show(lv)}, not the configured one", node)

    def close(self, eng, st, o):
        f, stt, lv = self.objs(st)[o]
        if stt == "open":
            self.put(st, o, (f, "closed", lv))
            if self.objs(st)[f][1] is not None:
                self.emit(st, f, T("tail"))

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        if is_t(recv, "gzobj"):
            kind = recv.a[1]
            o = self.objs(st)[recv]
            args = list(args) + list(kwargs.values())
            if kind == "buf":
                return self.buf(eng, st, recv, o, name, args, node)
            if kind == "file":
                f, stt, lv = o
                if name == "write":
                    if stt != "open":
                        return [("raise", st, T("exc", "builtins.ValueError", "write() on closed GzipFile"))]
                    self.emit(st, f, T("out", args[0]))
                    return ok(st, T("len", args[0]))
                if name == "flush":
                    return ok(st, NONE)
                if name in ("close", "__exit__"):
                    self.close(eng, st, recv)
                    return ok(st, NONE)
                if name == "__enter__":
                    return ok(st, recv)
            if kind == "zobj":
                toks = ()
                if o[0] == "new":
                    toks = (T(o[1]),)
                if name == "compress":
                    self.put(st, recv, ("used",) + o[1:])
                    return ok(st, gz(*toks, T("out", args[0])))
                if name == "flush":
                    fin = not args or (is_c(args[0]) and cval(args[0]) == 4)
                    self.put(st, recv, ("used",) + o[1:])
                    return ok(st, gz(*toks, *((T("tail"),) if fin else ())))
        return super().on_method(eng, st, recv, name, args, kwargs, node)

    def buf(self, eng, st, b, o, name, args, node):
        cont, pos = o
        if pos is None and name not in ("close", "__exit__"):
            return [("raise", st, T("exc", "builtins.ValueError", "I/O on closed buffer"))]
        if name in ("getvalue", "getbuffer"):
            return ok(st, gz(*cont))
        if name == "read":
            self.put(st, b, (cont, max(pos, len(cont))))
            return ok(st, gz(*cont[pos:]))
        if name == "seek":
            if args and args[0] is C(0) and (len(args) < 2 or args[1] is C(0)):
                self.put(st, b, (cont, 0))
            elif len(args) > 1 and args[1] is C(2):
                self.put(st, b, (cont, len(cont)))
            elif args and is_t(args[0], "bufpos"):
                self.put(st, b, (cont, args[0].a[1]))
            else:
                return None
            return ok(st, C(0))
        if name == "tell":
            return ok(st, T("bufpos", pos))
        if name == "truncate":
            n = pos
            if args and args[0] is C(0):
                n = 0
            elif args and is_t(args[0], "bufpos"):
                n = args[0].a[1]
            elif args and args[0] is not NONE:
                return None
            self.put(st, b, (cont[:n], pos))
            return ok(st, C(0))
        if name in ("close", "__exit__"):
            self.put(st, b, (cont, None))
            return ok(st, NONE)
        if name == "__enter__":
            return ok(st, b)
        if name == "write":
            self.emit(st, b, args[0])
            return ok(st, NONE)
        return None

    def with_(self, eng, st, cm, node, inner, is_async):
        if not is_t(cm, "gzobj"):
            return None
        out = []
        for k, s, v in inner(st, cm):
            for kk, s2, vv in self.on_method(eng, s, cm, "close", [], {}, node):
                out.append((k, s2, v))
        return out


def run(ctx):
    ctx.rule("one-to-one", "the application's messages are forwarded one to one, in order, the start before the first body, with status, more_body and other fields unchanged")
    ctx.rule("untouched", "a response that is not compressed keeps its bodies and its headers; only Vary may be extended")
    ctx.rule("stream-complete", "the compressed bodies together are one complete gzip stream of all chunks in order")
    ctx.rule("headers-match-body", "a compressed response declares Content-Encoding: gzip, no Content-Length other than the compressed size, and Vary: Accept-Encoding")
    ctx.rule("only-when-allowed", "compressed only if the client accepts gzip, the application set no Content-Encoding, the type is not an event stream, and the body is streamed or at least minimum_size")
    ctx.rule("when-allowed", "a compressible response to a client accepting gzip is compressed")
    ctx.rule("configured-level", "the configured compression level is used")
    ctx.rule("per-request-stream", "every request has its own compression stream")
    ctx.rule("no-error", "the middleware does not fail on its own")
    for i, sc in enumerate(SCRIPTS):
        one(ctx, i, sc)
    ctx.need("compressed response", 8)
    ctx.need("untouched response", 20)
    ctx.need("compressor created", 8)
    ctx.assume("the accept-encoding test is the substring test on the header value; q-values are not part of the claim")


def one(ctx, i, sc):
    env = Env35(ctx, [sc])
    eng = ctx.engine(env)
    st0 = eng.start_state()
    for st, ref in build(eng, st0, Q, {"app": APP, "minimum_size": S("minsize"), "compresslevel": S("compresslevel")}):
        scope = new_scope(eng, st, "http")
        st.mon["scope_open"] = True
        for k, s, v in eng.run_call(st, ref, [scope, RECEIVE, SEND]):
            ctx.oblige("path")
            label = f"script {i} ({', '.join(m.typ.rsplit('.', 1)[1] + ('+' if m.fields.get('more_body') is TRUE else '') for m in sc)}): "
            rep = lambda rule, text: eng.report(rule, Q, s, label + text)
            if k == "raise":
                rep("no-error", f"raises {show(v)}")
                continue
            judge(ctx, eng, s, sc, rep)


def flat(v):
    """tokens of a forwarded body"""
    if v is None or v is C(b""):
        return ()
    if is_t(v, "gz"):
        return tuple(v.a[1:])
    if is_t(v, "concat") or is_t(v, "add"):
        return tuple(t for x in v.a[1:] if x is not None for t in flat(x))
    if is_t(v, "call") and v.a[1] == "builtins.bytes" and len(v.a) == 3:
        return flat(v.a[2])
    return (v,)


def compressed(v):
    return any(t.tag == "t" and t.a[0] in ("head", "ZLIBHEAD", "out", "tail", "PADDING", "OVERWRITTEN") for t in flat(v))


def body(sn):
    return sfield(sn, "body") or C(b"")


def more(sn):
    return sfield(sn, "more_body") or FALSE


def evidence(s, hdr, word):
    """branch facts about the header value against a constant containing `word`"""
    out = None
    for t, f in s.facts.items():
        neg = False
        while is_t(t, "not"):
            t, neg = t.a[1], not neg
        if f.tr is None or not mentions(t, hdr) or not any(is_c(x) and word in str(cval(x)).lower() for x in subterms(t)):
            continue
        r = f.tr != neg
        if r:
            return True
        if t.a[0] in ("in", "exists") or (is_t(t, "m") and t.a[1] == "startswith" and word == "text/event-stream"):
            out = False
    return out


def decide(eng, s, sc):
    """(client accepts gzip, encoding set, excluded type): each True/False/None (undecided on the path)"""
    ae, src = C("accept-encoding"), T("item", SCOPE, C("headers"))
    acc = eng.truth(s, T("hdrin", src, ae))
    if acc is not False:
        acc = evidence(s, T("hdr", src, ae), "gzip")
    nohdr = not any("headers" in m.fields for m in sc)
    app = S("apphdr")
    enc = False if nohdr else eng.truth(s, T("hdrin", app, C("content-encoding")))
    exc = False if nohdr else eng.truth(s, T("hdrin", app, C("content-type")))
    if exc is not False:
        exc = evidence(s, T("hdr", app, C("content-type")), "text/event-stream")
    return acc, enc, exc


def infeasible(s):
    """a compressed stream equal to something that is not one, or empty although it holds the header or the end"""
    if any((f.tr is False or f.eq is C(b"")) and is_t(t, "gz") and any(x.a[0] in ("head", "tail") for x in t.a[1:]) for t, f in s.facts.items()):
        return True
    return any(f.tr and t.tag == "t" and t.a[0] in ("eq", "==") and any(is_t(x, "gz") for x in t.a[1:]) and any(x.tag != "t" or x.a[0] != "gz" for x in t.a[1:] if isinstance(x, V)) for t, f in s.facts.items())


def small(eng, s, b):
    n = C(0) if is_c(b) else T("len", b)
    r = eng.compare(s.fork(), ast.Lt(), n, S("minsize"), "size")
    return eng.truth(s, r[0][2])


def judge(ctx, eng, s, sc, rep):
    if infeasible(s):
        return
    sent = [e[1] for e in events(s, "sent")]
    fw = [e[1] for e in events(s, "fwd")]
    if [stype(m) for m in sent] != [stype(m) for m in fw]:
        rep("one-to-one", f"sent {[stype(m) for m in sent]}, forwarded {[stype(m) for m in fw]}")
        return
    for a, b in zip(sent, fw):
        da, db = dict(a.a[0]), dict(b.a[0])
        for key in sorted(set(da) | set(db), key=repr):
            if key in (C("headers"), C("body")):
                continue
            x, y = da.get(key), db.get(key)
            if key is C("more_body"):
                x, y = x or FALSE, y or FALSE
            if x is None or y is None or eng.eq_truth(s, x, y) is not True:
                rep("one-to-one", f"field {show(key)} of {stype(a)} is {show(y) if y is not None else 'dropped'}")
    pairs = [(a, b) for a, b in zip(sent, fw) if stype(a) == "http.response.body"]
    start0, start1 = next((a, b) for a, b in zip(sent, fw) if stype(a) == "http.response.start")
    acc, enc, exc = decide(eng, s, sc)
    ext = any(stype(m) not in ("http.response.start", "http.response.body") for m in sent)
    whole = bool(pairs) and more(pairs[0][0]) is FALSE
    isc = any(compressed(body(b)) for a, b in pairs)
    h0, h1 = sfield(start0, "headers"), sfield(start1, "headers")
    items0 = h0.a[:-1] if h0 is not None and h0.tag == "snaplist" else ()
    items1 = h1.a[:-1] if h1 is not None and h1.tag == "snaplist" else ()
    names1 = [(cval(it.a[0]) if is_c(it.a[0]) else show(it.a[0])) for it in items1 if it.tag == "tup"]
    removed = set()
    rest = []
    for it in items1:
        if it.tag == "rest":
            src = it.a[0]
            while is_t(src, "without"):
                removed.add(cval(src.a[2]))
                src = src.a[1]
            rest.append(src)
    if [it.a[0] for it in items0 if it.tag == "rest"] != rest:
        rep("untouched" if not isc else "headers-match-body", "the application's headers are lost")
        return
    foreign = [n for n in names1 if n not in ((b"vary", b"content-encoding", b"content-length") if isc else (b"vary",))]
    gone = removed - ({b"vary", b"content-encoding", b"content-length"} if isc else {b"vary"})
    rule = "headers-match-body" if isc else "untouched"
    if foreign:
        rep(rule, f"header {foreign[0]!r} added" + ("" if isc else " to a response that is not compressed"))
    if gone:
        rep(rule, f"header {sorted(gone)[0]!r} removed" + ("" if isc else " from a response that is not compressed"))
    v = hvals(start1, b"vary")
    if b"vary" in removed and eng.truth(s, T("hdrin", S("apphdr"), C("vary"))) is not False and not any(mentions(x, T("hdr", S("apphdr"), C("vary"))) or mentions(x, T("hdrlist", S("apphdr"), C(b"vary"))) for x in v):
        rep(rule, "the application's own Vary value is lost")
    if not isc:
        ctx.oblige("untouched response")
        for a, b in pairs:
            if eng.eq_truth(s, body(a), body(b)) is not True:
                rep("untouched", f"body {show(body(a))} forwarded as {show(body(b))}")
        why = acc is False or enc is True or exc is True or ext or not pairs
        if not why and whole:
            why = small(eng, s, body(pairs[0][0])) is True
        if not why:
            rep("when-allowed", "not compressed on a path that establishes no reason for that")
        return
    ctx.oblige("compressed response")
    if acc is not True:
        rep("only-when-allowed", "compressed on a path that does not establish that the client accepts gzip")
    if enc is not False:
        rep("only-when-allowed", "compressed on a path that does not establish that the application set no Content-Encoding")
    if exc is not False:
        rep("only-when-allowed", "compressed on a path that does not establish that the content type is not an event stream")
    if whole and small(eng, s, body(pairs[0][0])) is not False:
        rep("only-when-allowed", "a whole body is compressed on a path that does not establish that it has at least minimum_size bytes")
    toks = tuple(t for a, b in pairs for t in flat(body(b)))
    plainb = [body(a) for a, b in pairs if body(a) is not C(b"")]
    outs = [t.a[1] for t in toks if is_t(t, "out") and t.a[1] is not C(b"")]
    shape = [t.a[0] for t in toks if t.tag == "t" and not is_t(t, "out")]
    if any(t.tag != "t" for t in toks) or shape != ["head", "tail"] or not (toks and is_t(toks[0], "head") and is_t(toks[-1], "tail")):
        rep("stream-complete", f"forwarded bodies make up {[show(t) for t in toks]}")
    elif outs != plainb:
        rep("stream-complete", f"compressed {[show(t) for t in outs]}, sent {[show(t) for t in plainb]}")
    if hvals(start1, b"content-encoding") != [C("gzip")]:
        rep("headers-match-body", f"Content-Encoding {[show(x) for x in hvals(start1, b'content-encoding')]}")
    elif b"content-encoding" not in removed and enc is not False:
        rep("headers-match-body", "a second Content-Encoding")
    cl = hvals(start1, b"content-length")
    if cl:
        ln = cl[0]
        while ln is not None and ln.tag == "t" and ln.a[0] in ("str", "m") or is_t(ln, "call") and ln.a[1] in ("builtins.str",):
            ln = ln.a[2] if ln.a[0] in ("m", "call") else ln.a[1]
        good = whole and len(cl) == 1 and is_t(ln, "len") and flat(ln.a[1]) == toks
        if not good:
            rep("headers-match-body", f"Content-Length {show(cl[0])} is not the size of the compressed body")
    if b"content-length" not in removed and eng.truth(s, T("hdrin", S("apphdr"), C("content-length"))) is not False and items0:
        rep("headers-match-body", "the application's Content-Length of the uncompressed body is kept")
    good = False
    for x in v:
        txt = "".join(str(cval(y)) for y in (x.a[1:] if is_t(x, "concat") or is_t(x, "joined") else (x,)) if is_c(y))
        if "accept-encoding" in txt.lower():
            good = True
    if not good:
        rep("headers-match-body", "compressed without Vary: Accept-Encoding")
