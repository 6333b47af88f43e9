"""Strings known in part: a string is a sequence of constant pieces and unknown pieces (a path after a constant prefix, the
literals and groups of a matched pattern).  Prefix/suffix tests, slicing at piece boundaries, indexing, stripping and comparison
are decided on the pieces; what the pieces do not decide is left alone."""
from __future__ import annotations

from .values import *


def pieces(e, st, v, depth=0):
    f = st.facts.get(v) if v.tag == "t" else None
    if f is not None and f.eq is not None and depth < 12:
        return pieces(e, st, f.eq, depth + 1)
    if is_t(v, "concat"):
        out = []
        for p in v.a[1:]:
            out.extend(pieces(e, st, p, depth + 1))
        return merge(out)
    if is_t(v, "str") and depth and e.type_of(st, v.a[1]) == "builtins.str":
        return pieces(e, st, v.a[1], depth + 1)
    return [v]


def merge(ps):
    out = []
    for p in ps:
        if text(p) == "":
            continue
        if out and text(p) is not None and text(out[-1]) is not None:
            out[-1] = C(cval(out[-1]) + cval(p))
        else:
            out.append(p)
    return out


def text(p):
    return cval(p) if is_c(p) and isinstance(cval(p), str) else None


def partly(e, st, v):
    """the pieces of a value that is a string with at least one constant piece (else None)"""
    if v.tag != "t" or v.a[0] not in ("concat",) and (st.facts.get(v) is None or st.facts[v].eq is None):
        return None
    ps = pieces(e, st, v)
    if len(ps) == 1 and ps[0] is v or not any(text(p) is not None for p in ps) and len(ps) == 1:
        return None
    if any(is_c(p) and text(p) is None for p in ps):
        return None
    return ps


def whole(e, st, ps):
    return e.concat(st, ps, "")


def nonempty(e, st, p):
    t = text(p)
    if t is not None:
        return bool(t)
    return e.truth(st, p) is True


def lacks(e, st, p, ch):
    t = text(p)
    if t is not None:
        return ch not in t
    return e.truth(st, T("in", C(ch), p)) is False


def cut_prefix(e, st, ps, pre):
    """(True, rest) if ps starts with pre, (False, None) if it cannot, (None, None) if unknown"""
    ps, pre = list(ps), list(pre)
    while pre:
        if not ps:
            if any(nonempty(e, st, p) for p in pre):
                return False, None
            return None, None
        a, b = ps[0], pre[0]
        if a is b:
            ps.pop(0)
            pre.pop(0)
            continue
        ta, tb = text(a), text(b)
        if ta is not None and tb is not None:
            n = min(len(ta), len(tb))
            if ta[:n] != tb[:n]:
                return False, None
            ps[0:1] = [C(ta[n:])] if ta[n:] else []
            pre[0:1] = [C(tb[n:])] if tb[n:] else []
            continue
        return None, None
    return True, ps


def cut_suffix(e, st, ps, suf):
    ps, suf = list(ps), list(suf)
    while suf:
        if not ps:
            if any(nonempty(e, st, p) for p in suf):
                return False, None
            return None, None
        a, b = ps[-1], suf[-1]
        if a is b:
            ps.pop()
            suf.pop()
            continue
        ta, tb = text(a), text(b)
        if ta is not None and tb is not None:
            n = min(len(ta), len(tb))
            if ta[len(ta) - n:] != tb[len(tb) - n:]:
                return False, None
            ps[-1:] = [C(ta[:len(ta) - n])] if ta[:len(ta) - n] else []
            suf[-1:] = [C(tb[:len(tb) - n])] if tb[:len(tb) - n] else []
            continue
        return None, None
    return True, ps


def length(e, st, ps):
    from .interp import lin
    return lin(e, st, [(1, C(len(text(p))) if text(p) is not None else T("len", p)) for p in ps])


def lens(e, st, v):
    """length normal form of a partly known string, or None"""
    ps = partly(e, st, v)
    return None if ps is None else length(e, st, ps)


def eq(e, st, a, b):
    """True/False/None"""
    pa, pb = pieces(e, st, a), pieces(e, st, b)
    if pa == [a] and pb == [b]:
        return None
    if any(is_c(p) and text(p) is None for p in pa + pb):
        return None
    pa, pb = merge(pa), merge(pb)
    while pa and pb:
        x, y = pa[0], pb[0]
        if x is y:
            pa.pop(0)
            pb.pop(0)
            continue
        tx, ty = text(x), text(y)
        if tx is not None and ty is not None:
            n = min(len(tx), len(ty))
            if tx[:n] != ty[:n]:
                return False
            pa[0:1] = [C(tx[n:])] if tx[n:] else []
            pb[0:1] = [C(ty[n:])] if ty[n:] else []
            continue
        break
    if not pa and not pb:
        return True
    if not pa or not pb:
        return False if any(nonempty(e, st, p) for p in pa or pb) else None
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if x is y:
            pa.pop()
            pb.pop()
            continue
        tx, ty = text(x), text(y)
        if tx is not None and ty is not None:
            n = min(len(tx), len(ty))
            if tx[len(tx) - n:] != ty[len(ty) - n:]:
                return False
            pa[-1:] = [C(tx[:len(tx) - n])] if tx[:len(tx) - n] else []
            pb[-1:] = [C(ty[:len(ty) - n])] if ty[:len(ty) - n] else []
            continue
        break
    # a constant containing a character the other side cannot contain
    for one, two in ((pa, pb), (pb, pa)):
        if len(one) == 1 and text(one[0]) is None:
            for p in two:
                if text(p) and any(lacks(e, st, one[0], c) for c in text(p) if c == "/"):
                    return False
    return None


def split_at(e, st, ps, i):
    """(left, right) pieces around position i, or None if i is not a known boundary"""
    n = cval(i) if is_c(i) else None
    if n is not None and isinstance(n, int):
        if n < 0:
            t = text(ps[-1]) if ps else None
            if t is not None and len(t) >= -n:
                return merge(ps[:-1] + [C(t[:n])]), merge([C(t[n:])])
            return None
        if not ps and n >= 0:
            return [], []
        t = text(ps[0]) if ps else None
        if n == 0:
            return [], list(ps)
        if t is not None and (len(t) >= n or len(ps) == 1):
            return merge([C(t[:n])]), merge([C(t[n:])] + ps[1:])
        return None
    for j in range(len(ps) + 1):
        if length(e, st, ps[:j]) is i:
            return ps[:j], ps[j:]
        if j < len(ps) and text(ps[j]) is not None:
            t = text(ps[j])
            for q in range(1, len(t)):
                if length(e, st, ps[:j] + [C(t[:q])]) is i:
                    return ps[:j] + [C(t[:q])], [C(t[q:])] + ps[j + 1:]
    from .interp import lin
    for j in range(len(ps) + 1):                 # negative: counted from the end
        if any(nonempty(e, st, p) for p in ps[j:]) and lin(e, st, [(-1, length(e, st, ps[j:]))]) is i:
            return ps[:j], ps[j:]
        if j < len(ps) and text(ps[j]) is not None:
            t = text(ps[j])
            for q in range(1, len(t)):
                if lin(e, st, [(-1, length(e, st, [C(t[q:])] + ps[j + 1:]))]) is i:
                    return ps[:j] + [C(t[:q])], [C(t[q:])] + ps[j + 1:]
    return None


def item(e, st, b, k):
    """b[k] (index or slice) on a partly known string, or None"""
    ps = partly(e, st, b)
    if ps is None:
        return None
    if k.tag == "slice":
        lo, hi, step = k.a
        if step is not NONE:
            return None
        cur = ps
        if hi is not NONE:
            r = split_at(e, st, cur, hi)
            if r is None:
                return None
            left = r[0]
        else:
            left = cur
        if lo is not NONE:
            r = split_at(e, st, cur, lo)
            if r is None:
                return None
            # right of lo, cut to left's end
            n = len(r[0])
            ok, rest = cut_prefix(e, st, left, r[0])
            if ok is not True:
                return None
            left = rest
        return whole(e, st, left)
    r = split_at(e, st, ps, k)
    if r is None:
        return None
    t = text(r[1][0]) if r[1] else None
    return C(t[0]) if t else None


def method(e, st, recv, name, args, kw):
    """value of recv.name(*args) on a partly known string, or None"""
    if kw:
        return None
    if name in ("startswith", "endswith") and len(args) == 1:
        if args[0].tag == "tup":
            return None
        ps = partly(e, st, recv)
        pa = pieces(e, st, args[0])
        if ps is None:
            if pa == [args[0]] or text(recv) is None and recv.tag != "t":
                return None
            ps = [recv]
        if any(is_c(p) and text(p) is None for p in pa):
            return None
        r = (cut_prefix if name == "startswith" else cut_suffix)(e, st, ps, pa)[0]
        return None if r is None else B(r)
    ps = partly(e, st, recv)
    if ps is None:
        return None
    if name in ("removeprefix", "removesuffix") and len(args) == 1:
        ok, rest = (cut_prefix if name == "removeprefix" else cut_suffix)(e, st, ps, pieces(e, st, args[0]))
        return None if ok is None else whole(e, st, rest if ok else ps)
    if name in ("rstrip", "lstrip", "strip") and len(args) == 1 and text(args[0]):
        cs = text(args[0])
        ps = list(ps)
        for side in {"strip": (0, -1), "lstrip": (0,), "rstrip": (-1,)}[name]:
            ps = strip(e, st, ps, cs, side)
            if ps is None:
                return None
        return whole(e, st, ps)
    if name == "replace" and len(args) >= 2 and text(args[0]):
        if len(args) > 2:
            return None
        out = []
        for i, p in enumerate(ps):
            t = text(p)
            if t is None:
                out.append(p if lacks(e, st, p, text(args[0])[0]) else T("m", "replace", p, *args))
            else:
                for j, x in enumerate(t.split(text(args[0]))):
                    if j:
                        out.append(args[1])
                    out.append(C(x))
        return whole(e, st, out)
    return None


def strip(e, st, ps, cs, side):
    ps = list(ps)
    while ps:
        p = ps[side]
        t = text(p)
        if t is None:
            if nonempty(e, st, p) and all(lacks(e, st, p, c) for c in cs):
                return ps
            if len(ps) == 1:
                return [T("m", "rstrip" if side else "lstrip", p, C(cs))]
            return None
        u = t.rstrip(cs) if side else t.lstrip(cs)
        if u:
            ps[side] = C(u)
            return ps
        ps.pop(side)
    return ps


def has(e, st, a, b):
    """a in b"""
    ps = partly(e, st, b)
    t = text(a)
    if ps is None or t is None:
        return None
    if any(text(p) is not None and t in text(p) for p in ps):
        return True
    if len(t) == 1 and all(lacks(e, st, p, t) for p in ps):
        return False
    return None
