"""Conditional requests for static files: constant propagation over a table of validators.

StaticFiles answers a request for a regular file whose ETag and Last-Modified are fixed, with every combination of
If-None-Match forms (exact, weak, in a list, another tag, only another, prefix and suffix of the tag) and If-Modified-Since forms (absent, equal, later,
earlier, not a date), for GET and HEAD.  The status must be the one the validators call for, a 304 must carry the validators of
the full answer and no body or length, and NotModifiedResponse must keep exactly the headers a 304 repeats.
"""
from email.utils import parsedate

from ..interp import Cut
from ..mw import *
from .c03 import content, flat, sent, text
from .c13 import Env13, header
from .common import *

CLIENT36 = '''
from starlette.datastructures import Headers
from starlette.staticfiles import NotModifiedResponse, StaticFiles

def plain(directory):
    return StaticFiles(directory=directory)

def unmodified():
    return NotModifiedResponse(Headers(headers={
        "Cache-Control": "max-age=5", "Content-Location": "/x", "Date": "d", "ETag": "e", "Expires": "f", "Vary": "Accept",
        "Content-Length": "5", "Content-Type": "image/png", "Content-Encoding": "gzip", "Last-Modified": "g", "X-Other": "o"}))
'''
Q = "starlette.staticfiles.StaticFiles"
DIGEST = "0123456789abcdef"
TAG = f'"{DIGEST}"'
LAST = "Thu, 01 Jan 2015 10:00:30 GMT"
INM = {None: None, TAG: True, "W/" + TAG: True, f'"x", {TAG}': True, f'{TAG},"x"': True, f'W/"x" , W/{TAG} ': True, '"x"': False, '"x", "y"': False, f'"{DIGEST[:-1]}"': False,
       f'"{DIGEST}0"': False, f'"{DIGEST.upper()}"': False, f'"{DIGEST[:8]}","{DIGEST[8:]}"': False, '""': False}
IMS = {None: None, LAST: True, "Thu, 01 Jan 2015 10:00:31 GMT": True, "Thu, 01 Jan 2015 10:01:00 GMT": True, "Fri, 02 Jan 2015 00:00:00 GMT": True, "Thu, 01 Jan 2015 10:00:29 GMT": False, "Thu, 01 Jan 2015 09:59:59 GMT": False, "Thu, 01 Jan 2015 09:00:45 GMT": False,
       "Wed, 31 Dec 2014 23:00:00 GMT": False, "Sat, 01 Feb 2014 23:00:00 GMT": False, "nonsense": False}
KEEP = {"cache-control": "max-age=5", "content-location": "/x", "date": "d", "etag": "e", "expires": "f", "vary": "Accept"}


class Env36(Env13):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "email.utils.formatdate":
            return ok(st, C(LAST))
        if q in ("email.utils.parsedate", "email.utils.parsedate_tz") and args:
            v = eng.known(st, args[0])
            if is_c(v) and isinstance(cval(v), str):
                d = parsedate(cval(v))
                return ok(st, NONE if d is None else Tup([C(x) for x in d]))
        if q == "email.utils.parsedate_to_datetime" and args and is_c(eng.known(st, args[0])):
            d = parsedate(cval(eng.known(st, args[0])))
            if d is None:
                return [("raise", st, eng.new_inst(st, node, Ext("builtins.ValueError")))]
            return ok(st, C(int("%04d%02d%02d%02d%02d%02d" % d[:6])))
        if q.startswith("hashlib."):
            return ok(st, T("hash", *args))
        return super().on_ext(eng, st, q, args, kwargs, node)

    def stat(self, eng, st, q, p, node):
        return [(k, s, v) for k, s, v in super().stat(eng, st, q, p, node) if k == "ok" and (not is_t(v, "stat") or v.a[2] != "fifo" and (v.a[2] == "reg") == (p is not S("dir")))]

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        if is_t(recv, "hash"):
            return ok(st, C(DIGEST))
        return super().on_method(eng, st, recv, name, args, kwargs, node)


def run(ctx):
    ctx.rule("not-modified", "304 exactly when If-None-Match lists the ETag, or is absent and If-Modified-Since is a date not before Last-Modified; otherwise the file with 200")
    ctx.rule("304", "a 304 carries the ETag of the full answer, no body, and no Content-Length or Content-Type")
    ctx.rule("kept", "NotModifiedResponse keeps exactly the headers a 304 repeats, with their values")
    ctx.client(CLIENT36)
    for method in ("GET", "HEAD"):
        for inm in INM:
            for ims in IMS if inm in (None, TAG, '"x"') else (None, LAST):
                try:
                    case(ctx, method, inm, ims)
                except Cut as ex:
                    ctx.undecided(f"{method} {inm} {ims}: {ex}")
    kept(ctx)
    ctx.need("304", 20)
    ctx.need("200", 20)
    ctx.need("kept", 1)
    ctx.assume("the ETag digest and the modification time are fixed representatives; the listed forms of the two request headers")


def start_state(eng):
    st = eng.start_state()
    st.facts[S("dir")] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]), tr=True)
    return st


def case(ctx, method, inm, ims):
    eng = ctx.engine(Env36())
    eng.max_steps = 30_000
    st = start_state(eng)
    what = f"{method} with If-None-Match {inm!r} and If-Modified-Since {ims!r}"
    for k, s, app in eng.run_call(st, eng.force(st, eng.p.lookup_global(eng.p.client, "plain")), [S("dir")]):
        for key in ("app_root_path", "root_path", "extensions", "path_params", "state", "app", "router", "endpoint"):
            s.facts[T("in", C(key), SCOPE)] = Fact(tr=False)
        h = [Tup([C(b"host"), C(b"h.example")])]
        if ims is not None:
            h.append(Tup([C(b"if-modified-since"), C(ims.encode())]))
        if inm is not None:
            h.append(Tup([C(b"if-none-match"), C(inm.encode())]))
        scope = new_scope(eng, s, "http", method=C(method), path=C("/a/b.png"), scheme=C("http"), query_string=C(b""), headers=eng.new_list(s, "rh", h))
        want = INM[inm] if inm is not None else bool(IMS[ims])
        for k, s, v in eng.run_call(s, app, [scope, RECEIVE, SEND]):
            if events(s, "null") or k == "raise" and not starts(s) and outside(s):
                continue
            ctx.oblige("304" if want else "200")
            rep = lambda rule, t: eng.report(rule, Q + ".__call__", s, f"{what}: {t}")
            if k != "ok":
                rep("not-modified", f"raises {show(v)}")
                continue
            msgs = sent(s.mon["ev"])
            if not msgs or sfield(msgs[0], "status") is not C(304 if want else 200):
                rep("not-modified", f"answered with {show(sfield(msgs[0], 'status')) if msgs else 'nothing'}, expected {304 if want else 200}")
                continue
            g = lambda n: text(eng, s, header(eng, s, msgs[0], n))
            if g("etag") != TAG:
                rep("304", f"the answer has ETag {g('etag')}, expected {TAG}")
            if want:
                if g("content-length") not in (None,) or g("content-type") is not None:
                    rep("304", "a 304 describes a body")
                body = content(eng, s, msgs, rep, "304")
                if body is not None and any(x != b"" for x in body):
                    rep("304", "a 304 has a body")


def outside(s):
    """the path was found to be outside the directory: not this property's business"""
    return any(f.tr is False and is_t(t, "eq") and any(is_t(x, "call") and x.a[1] == "os.path.commonpath" for x in t.a[1:]) for t, f in s.facts.items())


def kept(ctx):
    eng = ctx.engine(MwEnv())
    st = eng.start_state()
    for k, s, v in eng.run_call(st, eng.force(st, eng.p.lookup_global(eng.p.client, "unmodified")), []):
        if k != "ok":
            eng.report("kept", "starlette.staticfiles.NotModifiedResponse", s, f"raises {show(v)}")
            continue
        for k, s, r in eng.run_call(s, v, [new_scope(eng, s, "http", method=C("GET")), RECEIVE, SEND]):
            ctx.oblige("kept")
            msgs = sent(s.mon["ev"])
            h = sfield(msgs[0], "headers")
            got = {}
            for it in h.a[:-1]:
                if it.tag == "tup":
                    got.setdefault(text(eng, s, it.a[0]), text(eng, s, it.a[1]))
            if got != KEEP:
                diff = sorted(set(got.items()) ^ set(KEEP.items()))
                eng.report("kept", "starlette.staticfiles.NotModifiedResponse", s, f"headers of the 304 differ from the repeated ones in {diff}")
