"""Regular expressions whose pattern is a constant of the program: matching a constant string is folded (a pure library
function on constants); matching an unknown string gives a match object whose groups are known by name."""
from __future__ import annotations

import re

from . import strs
from .relang import sc, sp
from .values import *


def pat(v):
    """(pattern, flags) of a compiled constant pattern"""
    if is_t(v, "call") and v.a[1] == "re.compile" and len(v.a) > 2 and is_c(v.a[2]):
        fl = 0
        for x in v.a[3:]:
            if is_c(x) and isinstance(cval(x), int):
                fl |= cval(x)
            elif is_c(x) and cval(x) == "flags":
                continue
            else:
                return None
        try:
            return re.compile(cval(v.a[2]), fl)
        except re.error:
            return None
    return None


def const_ext(e, st, q, args, kw, n):
    if kw:
        return None
    if q == "re.escape" and len(args) == 1 and is_c(args[0]):
        return [("ok", st, C(re.escape(cval(args[0]))))]
    if q in ("re.match", "re.fullmatch", "re.search", "re.findall", "re.finditer", "re.sub", "re.split") and args and is_c(args[0]):
        p = T("call", "re.compile", args[0])
        return method(e, st, p, q[3:], list(args[1:]), {}, n) or None
    return None


def cm(p, s, name, i=0):
    return T("cmatch", C(p.pattern), C(p.flags), C(s), name, i)


def real(m):
    p = re.compile(cval(m.a[1]), cval(m.a[2]))
    s, name, i = cval(m.a[3]), m.a[4], m.a[5]
    if name == "finditer":
        return list(p.finditer(s))[i]
    return getattr(p, name)(s)


def method(e, st, recv, name, args, kw, n):
    if kw:
        return None
    if is_t(recv, "cmatch"):
        if name in ("group", "groups", "start", "end", "span", "groupdict", "__getitem__") and all(is_c(x) for x in args):
            try:
                r = getattr(real(recv), name)(*[cval(x) for x in args])
            except IndexError:
                return [("raise", st, e.new_inst(st, n, Ext("builtins.IndexError")))]
            if isinstance(r, dict):
                return [("ok", st, e.new_dict(st, n, {C(k): C(v) for k, v in r.items()}))]
            if isinstance(r, tuple):
                return [("ok", st, Tup([C(x) for x in r]))]
            return [("ok", st, C(r))]
        return None
    p = pat(recv)
    if p is not None and args and all(is_c(x) for x in args):
        vals = [cval(x) for x in args]
        try:
            if name in ("match", "fullmatch", "search"):
                r = getattr(p, name)(*vals)
                if r is None:
                    return [("ok", st, NONE)]
                if len(vals) > 1:
                    return None
                t = cm(p, vals[0], name)
                st.facts[t] = known()
                return [("ok", st, t)]
            if name == "finditer" and len(vals) == 1:
                ts = [cm(p, vals[0], name, i) for i, _ in enumerate(p.finditer(*vals))]
                for t in ts:
                    st.facts[t] = known()
                return [("ok", st, e.new_list(st, n, ts))]
            if name in ("findall", "split"):
                return [("ok", st, e.new_list(st, n, [Tup([C(y) for y in x]) if isinstance(x, tuple) else C(x) for x in getattr(p, name)(*vals)]))]
            if name in ("sub",) and len(vals) == 2:
                return [("ok", st, C(p.sub(*vals)))]
        except Exception:
            return None
    if p is not None and name == "sub" and len(args) == 2 and args[0].tag in ("fn", "bound", "part") and is_c(args[1]) and type(cval(args[1])) is type(p.pattern):
        return sub_fn(e, st, p, args[0], cval(args[1]), n)
    if p is not None and (p.groupindex or not p.groups and only_text(p, name)) and name in ("match", "fullmatch", "search") and len(args) == 1 and not is_c(args[0]):
        return symmatch(e, st, p, recv, name, args[0], n)
    if is_t(recv, "m") and recv.a[1] in ("match", "fullmatch", "search"):
        p = pat(recv.a[2])
        if p is not None and name == "groupdict" and not args:
            return [("ok", st, e.new_dict(st, n, {C(k): T("m", "group", recv, C(k)) for k in p.groupindex}))]
        if p is not None and name == "groups" and not args:
            back = {v: k for k, v in p.groupindex.items()}
            return [("ok", st, Tup([T("m", "group", recv, C(back.get(i + 1, i + 1))) for i in range(p.groups)]))]
    return None


def sub_fn(e, st, p, f, text, n):
    """substitution through a function, on a constant text"""
    outs = [(st, [])]
    end = 0
    for i, m in enumerate(p.finditer(text)):
        t = cm(p, text, "finditer", i)
        nxt = []
        for s, parts in outs:
            s.facts[t] = known()
            for k, s2, v in e.call(s, f, [t], {}, n):
                if k != "ok":
                    nxt.append((k, s2, v))
                elif not is_c(v):
                    return None
                else:
                    nxt.append((s2, parts + [text[end:m.start()], cval(v)]))
        bad = [x for x in nxt if len(x) == 3]
        if bad:
            return None
        outs = nxt
        end = m.end()
    return [("ok", s, C(text[:0].join(parts + [text[end:]]))) for s, parts in outs]


def may_match(tree, ch):
    """can the (sub)pattern consume the character"""
    for op, av in tree:
        if op is sc.LITERAL and av == ord(ch) or op is sc.NOT_LITERAL and av != ord(ch) or op is sc.ANY:
            return True
        if op is sc.IN:
            neg = any(o is sc.NEGATE for o, _ in av)
            hit = any(o is sc.LITERAL and a == ord(ch) or o is sc.RANGE and a[0] <= ord(ch) <= a[1] or o is sc.CATEGORY for o, a in av)
            if hit != neg or any(o is sc.CATEGORY for o, a in av):
                return True
        if op is sc.BRANCH and any(may_match(x, ch) for x in av[1]):
            return True
        if op is sc.SUBPATTERN and may_match(av[3], ch):
            return True
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and may_match(av[2], ch):
            return True
        if op not in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.BRANCH, sc.SUBPATTERN, sc.MAX_REPEAT, sc.MIN_REPEAT, sc.AT):
            return True
    return False


def layout(p, name):
    """the pattern as a sequence of literals (str) and named groups [(name, tree)], with the kind of end it has; None if it is not one"""
    if p.flags & re.I:
        return None
    back = {i: n for n, i in p.groupindex.items()}
    items = list(sp.parse(p.pattern, p.flags & ~re.U))
    begun = False
    while items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        items.pop(0)
        begun = True
    if name == "search" and not begun:
        return None
    end = "whole" if name == "fullmatch" else "open"
    while items and items[-1][0] is sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING):
        k = items.pop()[1]
        if end != "whole":
            end = "whole" if k is sc.AT_END_STRING else "newline"
    out = []
    for op, av in items:
        if op is sc.LITERAL:
            if out and isinstance(out[-1], str):
                out[-1] += chr(av)
            else:
                out.append(chr(av))
        elif op is sc.SUBPATTERN and av[0] in back:
            out.append((back[av[0]], av[3]))
        else:
            return None
    return out, end


def only_text(p, name):
    lay = layout(p, name)
    return lay is not None and lay[1] == "whole" and all(isinstance(x, str) for x in lay[0])


def symmatch(e, st, p, recv, name, subject, n):
    M = T("m", name, recv, subject)
    f = st.facts.get(M)
    if f is not None and f.eq is NONE:
        return [("ok", st, NONE)]
    if f is not None and f.tr is True:
        return [("ok", st, M)]
    lay = layout(p, name)
    eqs, sure = [], None
    if lay is not None:
        items, end = lay
        ps = strs.pieces(e, st, subject)
        if all(not is_c(x) or isinstance(cval(x), str) for x in ps):
            r = align(e, st, M, items, end, ps)
            if r is not None:
                sure, eqs = r
    out = []
    if sure is not True:
        s0 = st if sure is False else st.fork()
        from .interp import Fact
        s0.facts[M] = Fact(eq=NONE, tr=False)
        s0.note(e.loc(n), f"{show(subject)} does not match {p.pattern!r}")
        out.append(("ok", s0, NONE))
    if sure is not False:
        from .interp import Fact
        st.facts[M] = known()
        st.note(e.loc(n), f"{show(subject)} matches {p.pattern!r}")
        for it in (lay[0] if lay else ()):
            if not isinstance(it, str):
                g = T("m", "group", M, C(it[0]))
                facts_of(e, st, g, it[1])
        dead = False
        for a, b in eqs:
            if is_c(b) and not is_c(a) or not is_c(b):
                old = st.facts.get(a) or Fact()
                if is_c(b) and (old.tr is True and not cval(b) or b in old.ne):
                    dead = True
                    break
                new = Fact(eq=b, ne=old.ne, tr=old.tr, isa=old.isa, nota=old.nota)
                st.facts[a] = new
                if b.tag == "t" and b.a[0] != "concat":      # what the group cannot contain holds for what it is
                    fb = st.facts.get(b) or Fact()
                    st.facts[b] = Fact(eq=fb.eq, ne=fb.ne | {NONE}, tr=fb.tr if fb.tr is not None else old.tr, isa=fb.isa | old.isa, nota=fb.nota)
                    if strs.lacks(e, st, a, "/"):
                        st.facts.setdefault(T("in", C("/"), b), Fact(tr=False))
        if not dead:
            out.append(("ok", st, M))
    return out


def facts_of(e, st, g, tree):
    from .interp import Fact
    lo = tree.getwidth()[0]
    st.facts[g] = Fact(tr=True if lo > 0 else None, ne=frozenset([NONE]), isa=frozenset(["builtins.str"]))
    if not may_match(tree, "/"):
        st.facts[T("in", C("/"), g)] = Fact(tr=False)


def align(e, st, M, items, end, ps):
    """(True/False/None, equations) or None when the pieces do not determine the groups"""
    items, ps = list(items), list(ps)
    eqs = []
    G = lambda it: C(it) if isinstance(it, str) else T("m", "group", M, C(it[0]))
    while items and ps:
        it, x = items[0], ps[0]
        t = strs.text(x)
        if isinstance(it, str) and t is not None:
            k = min(len(it), len(t))
            if it[:k] != t[:k]:
                return False, []
            items[0:1] = [it[k:]] if it[k:] else []
            ps[0:1] = [C(t[k:])] if t[k:] else []
            continue
        if not isinstance(it, str) and t is not None and not may_match(it[1], "/") and len(items) > 1 and isinstance(items[1], str) and items[1].startswith("/") and "/" in t:
            v = t[:t.index("/")]
            if not fits(it[1], v):
                return False, []
            eqs.append((G(it), C(v)))
            items.pop(0)
            ps[0:1] = [C(t[len(v):])] if t[len(v):] else []
            continue
        if not isinstance(it, str) and t is None and len(items) > 1 and isinstance(items[1], str) and items[1].startswith("/") \
                and not may_match(it[1], "/") and strs.lacks(e, st, x, "/") and len(ps) > 1 and (strs.text(ps[1]) or "").startswith("/"):
            eqs.append((G(it), x))                 # a segment against a segment
            items.pop(0)
            ps.pop(0)
            continue
        break
    tail = [] if end == "whole" else [T("m", "group", M, C("<tail>"))]
    sure = None if eqs and any(not is_c(b) for _, b in eqs) else True
    if not items and not ps:
        return sure, eqs
    if not ps:
        for it in items:
            if isinstance(it, str) or it[1].getwidth()[0] > 0 or not fits(it[1], ""):
                return False, []
            eqs.append((G(it), C("")))
        return sure, eqs
    if not items:
        if end == "open":
            return sure, eqs
        if end == "whole" and any(strs.nonempty(e, st, x) for x in ps):
            return False, []
        if len(ps) == 1 and strs.text(ps[0]) is None:
            return None, eqs + [(ps[0], C("") if end == "whole" else tail[0])]
        return None
    if len(items) == 1 and not isinstance(items[0], str) and end == "whole":
        v = e.concat(st, ps, "")
        if is_c(v):
            return (sure if fits(items[0][1], cval(v)) else False), eqs + [(G(items[0]), v)]
        if not may_match(items[0][1], "/") and any("/" in (strs.text(x) or "") for x in ps):
            return False, []
        return None, eqs + [(G(items[0]), v)]
    if len(ps) == 1 and strs.text(ps[0]) is None:
        return None, eqs + [(ps[0], e.concat(st, [G(i) for i in items] + tail, ""))]
    return None


def fits(tree, s):
    src = unparse_source(tree)
    return True if src is None else re.fullmatch(src, s) is not None


def unparse_source(tree):
    """the subpattern rebuilt from its parse tree"""
    out = ""
    for op, av in tree:
        if op is sc.LITERAL:
            out += re.escape(chr(av))
        elif op is sc.NOT_LITERAL:
            out += "[^" + re.escape(chr(av)) + "]"
        elif op is sc.ANY:
            out += "."
        elif op is sc.IN:
            x = ""
            for o, a in av:
                if o is sc.NEGATE:
                    x = "^" + x
                elif o is sc.LITERAL:
                    x += re.escape(chr(a))
                elif o is sc.RANGE:
                    x += re.escape(chr(a[0])) + "-" + re.escape(chr(a[1]))
                elif o is sc.CATEGORY and a in _CAT:
                    x += _CAT[a]
                else:
                    return None
            out += "[" + x + "]"
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            x = unparse_source(sub)
            if x is None:
                return None
            out += "(?:" + x + "){" + str(lo) + "," + ("" if hi is sc.MAXREPEAT else str(hi)) + "}"
        elif op is sc.SUBPATTERN:
            x = unparse_source(av[3])
            if x is None:
                return None
            out += "(?:" + x + ")"
        elif op is sc.BRANCH:
            xs = [unparse_source(x) for x in av[1]]
            if None in xs:
                return None
            out += "(?:" + "|".join(xs) + ")"
        else:
            return None
    return out


_CAT = {sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D", sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S", sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W"}


def known():
    from .interp import Fact
    return Fact(tr=True, ne=frozenset([NONE]))
