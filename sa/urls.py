"""URLs as terms: what urlsplit / _replace / geturl make of a URL assembled from known and unknown pieces, under the assumption
that the unknown pieces of an authority or a path contain no delimiter of a later component."""
from __future__ import annotations

from urllib.parse import urlsplit

from . import strs
from .values import *

PARTS = ("scheme", "netloc", "path", "query", "fragment")


def is_split(t):
    return is_t(t, "call") and t.a[1] in ("urllib.parse.urlsplit", "urllib.parse.urlparse")


def is_rep(t):
    return is_t(t, "m") and t.a[1] == "_replace"


def norm(e, st, t):
    """pieces of a string term, URL components resolved"""
    t = e.known(st, t)
    if is_c(t):
        return [t] if cval(t) != "" else []
    if is_t(t, "concat") or is_t(t, "add"):
        return strs.merge([p for x in t.a[1:] for p in norm(e, st, x)])
    if is_t(t, "str"):
        return norm(e, st, t.a[1])
    if is_t(t, "attr") and t.a[2] in PARTS:
        c = split(e, st, t.a[1])
        if c is not None:
            return c[t.a[2]]
    if is_t(t, "item") and is_c(t.a[2]) and isinstance(cval(t.a[2]), int):
        c = split(e, st, t.a[1])
        if c is not None:
            return c[PARTS[cval(t.a[2])]]
    if is_t(t, "m") and t.a[1] == "geturl":
        c = split(e, st, t.a[2])
        if c is not None:
            return unsplit(c)
    if is_t(t, "call") and t.a[1] == "urllib.parse.urlunsplit" and len(t.a) > 2:
        c = split(e, st, t.a[2])
        if c is not None:
            return unsplit(c)
    if is_t(t, "m") and t.a[1] in ("rstrip", "lstrip", "strip") and len(t.a) == 4 and is_c(t.a[3]):
        ps = norm(e, st, t.a[2])
        for side in {"strip": (0, -1), "lstrip": (0,), "rstrip": (-1,)}[t.a[1]]:
            r = strs.strip(e, st, ps, cval(t.a[3]), side)
            if r is None:
                return [t]
            ps = r
        return ps
    if is_t(t, "m") and t.a[1] == "decode" and is_t(t.a[2], "m") and t.a[2].a[1] == "encode":
        return norm(e, st, t.a[2].a[2])
    if is_t(t, "slice") or is_t(t, "item"):
        return [t]
    return [t]


def split(e, st, t):
    """component pieces of a SplitResult term, or None"""
    if is_split(t) and len(t.a) > 2:
        return parse(norm(e, st, t.a[2]))
    if is_rep(t):
        c = split(e, st, t.a[2])
        if c is None:
            return None
        c = dict(c)
        kw = t.a[3:]
        for k, v in zip(kw[::2], kw[1::2]):
            if cval(k) not in PARTS:
                return None
            c[cval(k)] = norm(e, st, v)
        return c
    if t.tag == "tup" and len(t.a) == 5:
        return {n: norm(e, st, v) for n, v in zip(PARTS, t.a)}
    return None


def parse(ps):
    """split a piece list; None if no delimiter decides"""
    if len(ps) == 1 and strs.text(ps[0]) is not None:
        u = urlsplit(cval(ps[0]))
        return {n: [C(getattr(u, n))] if getattr(u, n) else [] for n in PARTS}
    out = {n: [] for n in PARTS}
    if not ps:
        return out
    rest = list(ps)
    t = strs.text(rest[0])
    if t is not None and "://" in t and "/" not in t.split("://")[0]:
        out["scheme"] = [C(t.split("://", 1)[0])]
        rest = strs.merge([C(t.split("://", 1)[1])] + rest[1:])
        out["netloc"], rest = until(rest, "/?#")
    elif t is None and len(rest) > 1 and (strs.text(rest[1]) or "").startswith("://"):
        out["scheme"] = [rest[0]]
        rest = strs.merge([C(strs.text(rest[1])[3:])] + rest[2:])
        out["netloc"], rest = until(rest, "/?#")
    out["path"], rest = until(rest, "?#")
    if rest and strs.text(rest[0]).startswith("?"):
        rest = strs.merge([C(strs.text(rest[0])[1:])] + rest[1:])
        out["query"], rest = until(rest, "#")
    if rest:
        out["fragment"] = strs.merge([C(strs.text(rest[0])[1:])] + rest[1:])
    return out


def pathlike(p):
    """an unknown piece that is itself a path (it starts with '/')"""
    return is_t(p, "sym") and str(p.a[1]).startswith("path")


def until(ps, stops):
    left = []
    for i, p in enumerate(ps):
        t = strs.text(p)
        if t is None:
            if "/" in stops and pathlike(p):
                return strs.merge(left), ps[i:]
            left.append(p)
            continue
        for j, ch in enumerate(t):
            if ch in stops:
                return strs.merge(left + [C(t[:j])]), strs.merge([C(t[j:])] + ps[i + 1:])
        left.append(p)
    return strs.merge(left), []


def unsplit(c):
    out = []
    if c["scheme"]:
        out += c["scheme"] + [C(":")]
    if c["netloc"]:
        out += [C("//")] + c["netloc"]
        p = c["path"]
        if p and strs.text(p[0]) is not None and not strs.text(p[0]).startswith("/"):
            out.append(C("/"))
    out += c["path"]
    if c["query"]:
        out += [C("?")] + c["query"]
    if c["fragment"]:
        out += [C("#")] + c["fragment"]
    return strs.merge(out)


def text(ps):
    return "".join(cval(p) if strs.text(p) is not None else "<" + show(p) + ">" for p in ps)
