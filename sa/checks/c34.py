"""Cookie attributes, by path analysis of set_cookie and delete_cookie with symbolic arguments.

The cookie object of http.cookies is modelled as the record of what is assigned to it.  On every path the record must contain
exactly the attributes that the arguments call for on that path, and one Set-Cookie header with the output of that cookie must have been added to the
response, all other headers being unchanged; the session cookie and CORS are separate properties.
"""
import itertools

from ..mw import *
from .common import *

CLIENT34 = '''
from starlette.responses import Response

def set_all(max_age, expires, path, domain, secure, httponly, samesite):
    r = Response(b"", headers={"x-a": "1"})
    r.set_cookie("k", "v", max_age=max_age, expires=expires, path=path, domain=domain, secure=secure, httponly=httponly, samesite=samesite)
    return r

def set_default():
    r = Response(b"", headers={"x-a": "1"})
    r.set_cookie("k", "v")
    return r

def set_value(key, value):
    r = Response(b"", headers={"x-a": "1"})
    r.set_cookie(key, value)
    return r

def set_two(a, b):
    r = Response(b"", headers={"x-a": "1"})
    r.set_cookie("k", a)
    r.set_cookie("k", b, path="/x")
    return r

def delete_all(path, domain, secure, httponly, samesite):
    r = Response(b"", headers={"x-a": "1"})
    r.delete_cookie("k", path=path, domain=domain, secure=secure, httponly=httponly, samesite=samesite)
    return r

def delete_default():
    r = Response(b"", headers={"x-a": "1"})
    r.delete_cookie("k")
    return r

def seen(r):
    return r.headers["set-cookie"]
'''
Q = "starlette.responses.Response"
ATTRS = ("max_age", "expires", "path", "domain", "secure", "httponly", "samesite")


class Env34(MwEnv):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q in ("http.cookies.SimpleCookie", "http.cookies.BaseCookie"):
            n = st.mon.get("cookies", 0)
            st.mon["cookies"] = n + 1
            return ok(st, T("cookie", C(n)))
        if q in ("email.utils.format_datetime", "email.utils.formatdate"):
            return ok(st, T("call", q, *args, *[x for k, v in sorted(kwargs.items()) for x in (C(k), v)]))
        return super().on_ext(eng, st, q, args, kwargs, node)

    def setitem(self, eng, st, b, k, v, e):
        if is_t(b, "cookie"):
            self.ev(st, "cookie", b, k, v)
            return [("ok", st, NONE)]
        if is_t(b, "item") and is_t(b.a[1], "cookie"):
            if is_c(k):
                k = C(cval(k).lower())
            self.ev(st, "attr", b, k, eng.known(st, v))
            return [("ok", st, NONE)]
        return super().setitem(eng, st, b, k, v, e)

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        if is_t(recv, "cookie") and name in ("output", "OutputString"):
            if name == "output" and (args or kwargs.get("header") is not C("")):
                return None
            return ok(st, T("output", recv))
        if is_t(recv, "item") and is_t(recv.a[1], "cookie") and name in ("OutputString", "output"):
            return ok(st, T("output", recv.a[1]))
        if is_t(recv, "item") and is_t(recv.a[1], "cookie") and name == "update" and args:
            d = eng.known(st, args[0])
            if d.tag == "ref" and st.heap[d].kind == "dict" and st.heap[d].base is None:
                for k, v in st.heap[d].d.items():
                    self.setitem(eng, st, recv, k, v, node)
                return ok(st, NONE)
        if is_t(recv, "output") and name in ("strip", "lstrip"):
            return ok(st, recv)
        return super().on_method(eng, st, recv, name, args, kwargs, node)


def run(ctx):
    ctx.rule("attributes", "the cookie has exactly the attributes the arguments call for: max-age, expires (a datetime as an HTTP date), path, domain and samesite if not None, secure and httponly if true")
    ctx.rule("header", "each call adds exactly one Set-Cookie header with the cookie's own text and leaves every other header alone")
    ctx.rule("defaults", "by default path is '/' and samesite 'lax', and nothing else is set; samesite values other than lax, strict and none are refused")
    ctx.rule("delete", "delete_cookie sets the same cookie to nothing with max-age 0 and expires 0, keeping path, domain, secure, httponly and samesite")
    ctx.client(CLIENT34)
    P = {a: S(a) for a in ATTRS}
    for ss in ("lax", "Strict", "none", None, "bogus", ""):
        for exp in ("datetime", "int", "str", None):
            if exp not in ("datetime",) and ss not in ("lax", None):
                continue
            one(ctx, "set_all", dict(P, samesite=C(ss), expires=NONE if exp is None else S("expires")), exp)
        one(ctx, "delete_all", {**{a: P[a] for a in ATTRS[2:]}, "samesite": C(ss)}, None)
    one(ctx, "set_default", {}, None)
    one(ctx, "delete_default", {}, None)
    one(ctx, "set_value", {"key": S("key"), "value": S("value")}, None)
    one(ctx, "set_two", {"a": S("a"), "b": S("b")}, None)
    ctx.need("attributes", 100)
    ctx.need("header", 100)
    ctx.need("delete", 20)
    ctx.assume("http.cookies renders the attributes it is given")


def one(ctx, name, args, exp):
    eng = ctx.engine(Env34())
    st = eng.start_state()
    for a in ("max_age", "path", "domain"):
        if a in args:
            # an empty path or domain is not rendered either way
            st.facts[S(a)] = Fact(isa=frozenset(["builtins.int"])) if a == "max_age" else Fact(isa=frozenset(["builtins.str"]), tr=True)
    for a in ("secure", "httponly"):
        if a in args:
            st.facts[S(a)] = Fact(isa=frozenset(["builtins.bool"]), ne=frozenset([NONE]))
    if exp:
        k = {"datetime": "datetime.datetime", "int": "builtins.int", "str": "builtins.str"}[exp]
        st.facts[S("expires")] = Fact(isa=frozenset([k]), nota=frozenset(["datetime.datetime"]) - {k}, ne=frozenset([NONE]))
    fn = eng.force(st, eng.p.lookup_global(eng.p.client, name))
    opt = [a for a in ("max_age", "path", "domain", "secure", "httponly") if a in args]
    for pick in itertools.product((True, False), repeat=len(opt)):
        s = st.fork()
        vals = dict(args)
        for a, on in zip(opt, pick):
            if a in ("secure", "httponly"):
                s.facts[S(a)] = Fact(isa=frozenset(["builtins.bool"]), ne=frozenset([NONE]), tr=on)
            elif not on:
                vals[a] = NONE
            else:
                s.note("args", f"{a} given")
        for k, s2, v in eng.run_call(s, fn, list(vals.values())):
            judge(ctx, eng, s2, name, vals, exp, k, v)


def none(eng, s, t):
    return t is NONE or eng.truth(s, eng.eqterm(s, t, NONE)) is True


def want(eng, s, name, args, exp):
    if name == "set_default" or name == "set_value":
        return {"path": C("/"), "samesite": C("lax")}
    w = {}
    get = lambda a: args.get(a, NONE)
    if name.startswith("delete"):
        w["max-age"] = w["expires"] = C(0)
        if name == "delete_default":
            return dict(w, path=C("/"), samesite=C("lax"))
    elif not none(eng, s, get("max_age")):
        w["max-age"] = S("max_age")
    if name == "set_all" and exp:
        w["expires"] = S("expires")
    for a in ("path", "domain", "samesite"):
        if not none(eng, s, get(a)):
            w[a] = get(a)
    for a in ("secure", "httponly"):
        if eng.truth(s, get(a)) is True:
            w[a] = TRUE
    return w


def judge(ctx, eng, s, name, args, exp, k, v):
    con = Q + (".delete_cookie" if name.startswith("delete") else ".set_cookie")
    rule = "delete" if name.startswith("delete") else "defaults" if name == "set_default" else "attributes"
    rep = lambda r, t: eng.report(r, con, s, t + (f" ({name})" if name != "set_all" else ""))
    ss = args.get("samesite", C("lax"))
    if is_c(ss) and cval(ss) is not None and cval(ss).lower() not in ("lax", "strict", "none"):
        ctx.oblige("refused")
        if k != "raise":
            rep("defaults", f"samesite={cval(ss)!r} is accepted")
        return
    if k != "ok":
        return rep(rule, f"raises {show(v)}")
    ev = s.mon.get("ev", ())
    made = [e for e in ev if e[0] == "cookie"]
    ctx.oblige("header")
    raw = None
    for k2, s2, h in eng.getattr(s, v, "raw_headers", None):
        raw = s2.heap[h] if k2 == "ok" and h.tag == "ref" else None
    outs = []
    others = []
    for it in raw.items if raw is not None else ():
        if it.tag == "tup" and it.a[0] is C(b"set-cookie"):
            x = it.a[1]
            outs.append(x.a[2] if is_t(x, "m") and x.a[1] == "encode" else x)
        else:
            others.append(it)
    n = 2 if name == "set_two" else 1
    if raw is None or len(made) != n or outs != [T("output", e[1]) for e in made]:
        return rep("header", f"the response has {len(outs)} Set-Cookie headers after {n} call{'s' * (n > 1)}, for the cookies {[show(x) for x in outs]}")
    if Tup([C(b"x-a"), C(b"1")]) not in others or len(others) != 2:
        rep("header", "other headers of the response changed")
    for i, e in enumerate(made):
        ctx.oblige("attributes")
        if rule == "delete":
            ctx.oblige("delete")
        key, val = {"set_value": (S("key"), S("value")), "set_two": (C("k"), S("ab"[i]))}.get(name, (C("k"), C("v") if rule != "delete" else C("")))
        if e[2] is not key or e[3] is not val:
            rep(rule, f"the cookie is {show(e[2])}={show(e[3])}, expected {show(key)}={show(val)}")
        got = {}
        for a in ev:
            if a[0] == "attr" and a[1].a[1] is e[1] and a[1].a[2] is key:
                got[cval(a[2])] = a[3]
        w = {"path": C("/") if i == 0 else C("/x"), "samesite": C("lax")} if name == "set_two" else want(eng, s, name, args, exp)
        for a in sorted(set(got) | set(w)):
            g, x = got.get(a), w.get(a)
            if a in ("secure", "httponly"):
                good = (g is not None and eng.truth(s, g) is True) == (x is not None) and (g is None or eng.truth(s, g) is not None)
            elif a == "expires" and exp == "datetime":
                good = g is not None and is_t(g, "call") and g.a[1] == "email.utils.format_datetime" and g.a[2] is S("expires") and TRUE in g.a[3:]
            elif a == "samesite" and g is not None and x is not None:
                good = is_c(g) and cval(g).lower() == cval(x).lower()
            else:
                good = g is x or g is not None and x is not None and eng.known(s, g) is eng.known(s, x)
            if not good:
                rep(rule, f"attribute {a} is {show(g) if g is not None else 'not set'}, expected {show(x) if x is not None else 'not set'}")
