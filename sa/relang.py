"""Languages of constant regular expressions, decided on their parse trees (derivatives, product search): two patterns are
compared together with what each named group captures (group boundaries are letters of the alphabet)."""
from __future__ import annotations

import re
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:                     # python < 3.11
    import sre_parse as sp
    import sre_constants as sc

from functools import lru_cache

EXTRA = "\x85éßµ٣Ⅷ中😀\u2028"


class Unsupported(Exception):
    pass


EMPTY, EPS = ("0",), ("1",)


def cat(*xs):
    out = []
    for x in xs:
        if x == EMPTY:
            return EMPTY
        if x == EPS:
            continue
        out.extend(x[1] if x[0] == "cat" else [x])
    if not out:
        return EPS
    return out[0] if len(out) == 1 else ("cat", tuple(out))


def alt(*xs):
    out = set()
    for x in xs:
        if x[0] == "alt":
            out |= x[1]
        elif x != EMPTY:
            out.add(x)
    if not out:
        return EMPTY
    return next(iter(out)) if len(out) == 1 else ("alt", frozenset(out))


def star(x):
    if x in (EMPTY, EPS):
        return EPS
    return x if x[0] == "star" else ("star", x)


def chars(s):
    return ("ch", frozenset(s))


class Lang:
    """regex with letters from a finite set of representative characters plus group tags"""

    def __init__(self, pattern, flags=0, how="fullmatch", letters=()):
        self.letters = sorted(set(map(chr, range(128))) | set(EXTRA) | set(letters))
        p = re.compile(pattern, flags)
        self.flags = p.flags
        tree = sp.parse(pattern, flags)
        self.names = {i: n for n, i in p.groupindex.items()}
        items = list(tree)
        while items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            items.pop(0)
            begin = True
        else:
            pass
        if how == "search" and len(items) == len(list(tree)):
            raise Unsupported("search without a leading anchor")
        tail = [EPS]
        anchored = how == "fullmatch"
        while items and items[-1][0] is sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING):
            if items.pop()[1] is sc.AT_END and not anchored:
                tail = [alt(EPS, chars("\n"))]
            anchored = True
        if not anchored:
            tail = [star(chars(self.letters))]
        self.node = cat(*[self.conv(x) for x in items], *tail)

    def seq(self, items):
        return cat(*[self.conv(x) for x in items])

    def one(self, op, av):
        """letters matched by a single-character item"""
        import re as _re
        if op is sc.LITERAL and not self.flags & _re.I:
            return chars([c for c in self.letters if ord(c) == av])
        if op is sc.NOT_LITERAL and not self.flags & _re.I:
            return chars([c for c in self.letters if ord(c) != av])
        if op is sc.ANY:
            return chars([c for c in self.letters if self.flags & _re.S or c != "\n"])
        got = set()
        neg = False
        for o, a in (av if op is sc.IN else [(op, av)]):
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                got |= {c for c in self.letters if self.same(c, chr(a))}
            elif o is sc.NOT_LITERAL:
                got |= {c for c in self.letters if not self.same(c, chr(a))}
            elif o is sc.RANGE:
                if self.flags & _re.I:
                    got |= {c for c in self.letters if any(a[0] <= ord(x) <= a[1] for x in (c, c.lower(), c.upper()) if len(x) == 1)}
                else:
                    got |= {c for c in self.letters if a[0] <= ord(c) <= a[1]}
            elif o is sc.CATEGORY:
                cls = {sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D", sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S",
                       sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W"}[a]
                r = _re.compile(cls, self.flags & _re.A)
                got |= {c for c in self.letters if r.match(c)}
            else:
                raise Unsupported(str(o))
        return chars(set(self.letters) - got if neg else got)

    def same(self, a, b):
        return a == b or bool(self.flags & re.I) and a.lower() == b.lower()

    def conv(self, item):
        op, av = item
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.CATEGORY):
            return self.one(op, av)
        if op is sc.BRANCH:
            return alt(*[self.seq(x) for x in av[1]])
        if op is sc.SUBPATTERN:
            gid, add, rem, sub = av
            old = self.flags
            self.flags = (self.flags | add) & ~rem
            r = self.seq(sub)
            self.flags = old
            if gid in self.names:
                return cat(chars(["<" + self.names[gid]]), r, chars([">" + self.names[gid]]))
            return r
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
            lo, hi, sub = av
            x = self.seq(sub)
            if hi is sc.MAXREPEAT:
                return cat(*[x] * lo, star(x))
            if hi > 400:
                raise Unsupported("repeat")
            opt = EPS
            for _ in range(hi - lo):
                opt = alt(EPS, cat(x, opt))
            return cat(*[x] * lo, opt)
        raise Unsupported(str(op))


@lru_cache(None)
def nullable(n):
    if n[0] in ("1", "star"):
        return True
    if n[0] == "cat":
        return all(nullable(x) for x in n[1])
    if n[0] == "alt":
        return any(nullable(x) for x in n[1])
    return False


@lru_cache(None)
def deriv(n, c):
    if n[0] in ("0", "1"):
        return EMPTY
    if n[0] == "ch":
        return EPS if c in n[1] else EMPTY
    if n[0] == "alt":
        return alt(*[deriv(x, c) for x in n[1]])
    if n[0] == "star":
        return cat(deriv(n[1], c), n)
    head, rest = n[1][0], n[1][1:]
    r = cat(deriv(head, c), *rest)
    if nullable(head):
        r = alt(r, deriv(cat(*rest), c))
    return r


def first_sets(n, out):
    """character sets that matter for the next letter"""
    if n[0] == "ch":
        out.add(n[1])
    elif n[0] == "alt":
        for x in n[1]:
            first_sets(x, out)
    elif n[0] == "star":
        first_sets(n[1], out)
    elif n[0] == "cat":
        for x in n[1]:
            first_sets(x, out)
            if not nullable(x):
                break


def difference(a, b, limit=20000):
    """None if the two regexes (nodes) denote the same language, else (word, in_a, in_b)"""
    seen = {(a, b)}
    work = [(a, b, ())]
    while work:
        nxt = []
        for x, y, w in work:
            if nullable(x) != nullable(y):
                return "".join(c if len(c) == 1 else "" for c in w), nullable(x), nullable(y), w
            sets = set()
            first_sets(x, sets)
            first_sets(y, sets)
            cls = {}
            for c in sorted(set().union(*sets) if sets else (), key=lambda c: (len(c) > 1, not c.isalnum(), c)):
                cls.setdefault(tuple(c in s for s in sorted(sets, key=sorted)), c)
            for c in cls.values():
                p = (deriv(x, c), deriv(y, c))
                if p not in seen:
                    seen.add(p)
                    nxt.append((*p, w + (c,)))
            if len(seen) > limit:
                raise Unsupported("too many states")
        work = nxt
    return None
