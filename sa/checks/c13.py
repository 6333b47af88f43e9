"""Path analysis of StaticFiles over a symbolic file system.

StaticFiles is built with a directory and a package directory, with and without html mode and follow_symlink, and called with a
symbolic request path, below no root_path and below one.  os.stat answers with a regular file, a directory, something else or
each class of error; every file-system access is recorded with the path it is made for.  On every path: a stat or open is
only made for a resolved path the facts have established to lie inside one of the configured directories (themselves resolved the same way);
what is served is the first entry found, if it is a regular file; and status, redirect and 404 page follow from the outcomes.
"""
import errno
import posixpath

from ..mw import *
from .common import *
from .. import strs, urls

CLIENT13 = '''
from starlette.staticfiles import StaticFiles

def make(directory, html, follow):
    return StaticFiles(directory=directory, packages=[("pkg", "assets")], html=html, follow_symlink=follow, check_dir=False)

def late(directory, html, follow):
    return StaticFiles(directory=directory, html=html, follow_symlink=follow, check_dir=False)

def plain(directory, html, follow):
    return StaticFiles(directory=directory, html=html, follow_symlink=follow)
'''
Q = "starlette.staticfiles.StaticFiles"
ERRORS = {"missing": "builtins.FileNotFoundError", "notdir": "builtins.NotADirectoryError", "denied": "builtins.PermissionError"}
KINDS = ("reg", "dir", "fifo")
DIR = S("dir")
PKGDIR = C("/site/pkg/assets")
PURE = {"os.path.join": posixpath.join, "os.path.normpath": posixpath.normpath, "os.path.dirname": posixpath.dirname,
        "os.path.abspath": None, "os.path.realpath": None, "os.path.commonpath": None, "os.fspath": None}


class Env13(MwEnv):
    """a file system in which every path has one unknown, fixed status"""
    kind = "dir"        # what the configured directory is

    def on_ext(self, eng, st, q, args, kwargs, node):
        args = [eng.known(st, a) for a in args]
        if q == "importlib.util.find_spec":
            return ok(st, T("spec", *args))
        if q == "os.path.realpath" and from_request(args[0]) and not st.mon.get("null"):
            # a null byte in the request is found by the first call that gets to the operating system
            s = st.fork()
            s.note(eng.loc(node), "the path contains a null byte")
            st.mon["null"] = True
            self.ev(s, "null", None, None, None)
            return [("raise", s, T("exc", "builtins.ValueError", args[0]))] + ok(st, T("call", q, *args))
        if q in PURE:
            if PURE[q] and all(is_c(a) and isinstance(cval(a), str) for a in args):
                return ok(st, C(PURE[q](*map(cval, args))))
            args = [T("listval", *st.heap[a].items) if a.tag == "ref" and st.heap[a].kind == "list" else a for a in args]
            return ok(st, T("call", q, *args))
        if q == "mimetypes.guess_type":
            return ok(st, Tup([C("image/png"), NONE]))
        if q in ("stat.S_ISREG", "stat.S_ISDIR", "stat.S_ISLNK", "stat.S_ISFIFO"):
            m = args[0]
            if is_t(m, "attr") and m.a[2] == "st_mode" and is_t(m.a[1], "stat"):
                return ok(st, B(m.a[1].a[2] == q[-3:].lower()))
        if q in ("os.stat", "os.lstat", "os.path.isdir", "os.path.isfile", "os.path.exists", "os.path.islink") and args:
            return self.stat(eng, st, q, args[0], node)
        if q in ("anyio.open_file", "builtins.open", "io.open"):
            self.ev(st, "fs", "open", args[0], None)
            return ok(st, aw("value", T("file", args[0])) if q.startswith("anyio") else T("file", args[0]))
        return super().on_ext(eng, st, q, args, kwargs, node)

    def stat(self, eng, st, q, p, node):
        test = q.startswith("os.path")
        if p is DIR or p is PKGDIR:
            if self.kind == "missing":
                return ok(st, FALSE) if test else [("raise", st, T("exc", "builtins.FileNotFoundError", p))]
            return ok(st, B(q != "os.path." + ("isfile" if self.kind == "dir" else "isdir")) if test else T("stat", p, self.kind))
        done = st.mon.get("stat", ())
        again = [how for x, how in done if x is p]
        outs = []
        for how in again or KINDS + (("missing", "denied") if done else ("missing", "notdir", "denied", "long", "other")):
            s = st.fork()
            if not again:
                s.note(eng.loc(node), f"{q}: {how}")
                s.mon["stat"] = done + ((p, how),)
            self.ev(s, "fs", q, p, how)
            if test:
                outs += ok(s, B(how in {"os.path.isdir": ("dir",), "os.path.isfile": ("reg",), "os.path.exists": KINDS}.get(q, ())))
            elif how in KINDS:
                t = T("stat", p, how)
                s.facts[t] = Fact(ne=frozenset([NONE]), tr=True)
                outs += ok(s, t)
            else:
                outs.append(("raise", s, self.exc(eng, s, how, p)))
        return outs

    def exc(self, eng, st, how, p):
        if how in ERRORS:
            return T("exc", ERRORS[how], p)
        x = T("exc", "builtins.OSError", p)
        st.facts[T("attr", x, "errno")] = Fact(eq=Ext("errno.ENAMETOOLONG")) if how == "long" else Fact(ne=frozenset([Ext("errno.ENAMETOOLONG"), C(errno.ENAMETOOLONG)]))
        st.facts[x] = Fact(nota=frozenset(ERRORS.values()))
        return x

    def thread_call(self, eng, st, args, kwargs, node):
        return [(k, s, aw("value", v) if k == "ok" else v) for k, s, v in eng.call(st, args[0], list(args[1:]), {k: v for k, v in kwargs.items() if k not in ("abandon_on_cancel", "cancellable", "limiter")}, node)]

    def aw_value(self, eng, st, args, node):
        return ok(st, args[0])

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        if is_t(recv, "file") or is_t(recv, "enter") and is_t(recv.a[1], "file"):
            if name == "read":
                st.facts[T("len", S("chunk"))] = Fact(eq=C(5))
                return ok(st, aw("value", S("chunk")))
            if name in ("seek", "aclose"):
                return ok(st, aw("value", NONE))
        return super().on_method(eng, st, recv, name, args, kwargs, node)


def run(ctx):
    ctx.rule("contained", "a file is only looked at or opened through a resolved path established to be inside a configured directory resolved the same way")
    ctx.rule("symlinks", "unless symlinks are followed, both the file and the directory are resolved with all their symbolic links")
    ctx.rule("served", "the first entry found among the directories, in order, is served if it is a regular file: with status 200 and from the path that was checked")
    ctx.rule("not-found", "404 when nothing servable is found or the name is too long, 401 without permission, other errors are raised")
    ctx.rule("method", "only GET and HEAD; others are 405 without a look at the file system")
    ctx.rule("html", "html mode: index.html of a directory, redirect to the URL with '/' appended if it lacks one, 404.html with status 404 otherwise")
    ctx.rule("configured", "a configured directory that is missing or no directory is a RuntimeError, at construction or else at every request")
    ctx.client(CLIENT13)
    for html in (False, True):
        for follow in (False, True):
            for root in ("none", "mounted") if not follow and not html else ("none",):
                one(ctx, "make", html, follow, root)
    one(ctx, "plain", True, False, "mounted")
    for kind in ("missing", "reg", "fifo"):
        configured(ctx, kind)
    ctx.need("configured", 9)
    ctx.need("file served", 8)
    ctx.need("contained", 30)
    ctx.need("redirect", 2)
    ctx.need("404 page", 4)
    ctx.need("error", 12)
    ctx.need("method", 12)
    ctx.assume("os.path.realpath resolves all symbolic links, abspath all '.' and '..'; the file system does not change between check and use")


def last_char(t, X):
    """t is, or compares, the last character of the path"""
    if is_t(t, "eq") and len(t.a) > 2:
        return C("/") in t.a[1:] and any(last_char(x, X) for x in t.a[1:])
    return (is_t(t, "slice") or is_t(t, "item")) and mentions(t.a[1], X) and C(-1) in t.a[2:]


def about(t, name):
    """the path is made from this file name"""
    return any(is_c(x) and isinstance(cval(x), str) and cval(x).endswith(name) for x in subterms(t))


def from_request(t):
    return mentions(t, S("path")) or mentions(t, S("rest"))


def one(ctx, name, html, follow, root):
    eng = ctx.engine(Env13())
    st = eng.start_state()
    st.facts[DIR] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]), tr=True)
    sp = T("spec", C("pkg"))
    st.facts[sp] = Fact(ne=frozenset([NONE]), tr=True)
    st.facts[T("attr", sp, "origin")] = Fact(eq=C("/site/pkg/__init__.py"))
    for k, s0, app in eng.run_call(st, eng.force(st, eng.p.lookup_global(eng.p.client, name)), [DIR, B(html), B(follow)]):
        for method in ("GET", "HEAD", "POST", None) if k == "ok" else ():
            s1 = s0.fork()
            for key in ("app_root_path", "root_path", "extensions", "path_params", "state", "app", "router", "endpoint"):
                s1.facts[T("in", C(key), SCOPE)] = Fact(tr=False)
            extra = {"path": S("path"), "method": C(method) if method else S("method"), "scheme": C("http"), "server": NONE, "query_string": C(b"q=1")}
            X = S("path")
            if method is None:
                s1.facts[S("method")] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE, C("GET"), C("HEAD")]))
            if root == "mounted":
                extra["path"] = T("concat", C("/static/"), S("rest"))
                extra["root_path"] = C("/static")
                X = S("rest")
            s1.facts[X] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
            extra["headers"] = eng.new_list(s1, "reqhdrs", [Tup([C(b"host"), C(b"h.example")])])
            scope = new_scope(eng, s1, "http", **extra)
            for k, s, v in eng.run_call(s1, app, [scope, RECEIVE, SEND]):
                judge(ctx, eng, s, k, v, html, follow, [DIR] + [PKGDIR] * (name == "make"), X, method)


def configured(ctx, kind):
    env = Env13()
    env.kind = kind
    eng = ctx.engine(env)
    st = eng.start_state()
    st.facts[DIR] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]), tr=True)
    refused = lambda s, k, v: k == "raise" and eng.exc_name(s, v) == "builtins.RuntimeError"
    make = lambda name: eng.run_call(st.fork(), eng.force(st, eng.p.lookup_global(eng.p.client, name)), [DIR, FALSE, FALSE])
    for k, s, v in make("plain"):
        ctx.oblige("configured")
        if not refused(s, k, v):
            eng.report("configured", Q, s, f"constructed with a directory that is {kind}: {k}")
    for k, s, app in make("late"):
        todo = [(k, s, app)] if k == "ok" else []
        if not todo:
            eng.report("configured", Q, s, f"constructed with a directory that is {kind} and check_dir=False: {k}")
        for n in (1, 2, 3):
            ahead = []
            for _, s1, _ in todo:
                for key in ("app_root_path", "root_path", "extensions", "path_params", "state", "app", "router", "endpoint"):
                    s1.facts[T("in", C(key), SCOPE)] = Fact(tr=False)
                s1.facts[S("path")] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
                scope = new_scope(eng, s1, "http", path=S("path"), method=C("GET"), headers=eng.new_list(s1, "reqhdrs", []))
                for k2, s2, v in eng.run_call(s1, app, [scope, RECEIVE, SEND]):
                    ctx.oblige("configured")
                    if not refused(s2, k2, v):
                        eng.report("configured", Q + ".__call__", s2, f"request {n} with a directory that is {kind} and was not checked at construction: {k2} {show(v)} instead of RuntimeError")
                    else:
                        ahead.append((k2, s2, v))
            todo = ahead


def contained(eng, s, p, ok_res):
    """the resolved directory of which the facts establish that it contains p, or None"""
    for t, f in s.facts.items():
        d = None
        if is_t(t, "eq") or is_t(t, "=="):
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if f.tr is True and (common(eng, s, a, p, b) or strip(a) is p):
                    d = strip(b)
        elif f.eq is not None and common(eng, s, t, p, f.eq):
            d = f.eq
        elif f.tr is True and is_t(t, "m") and t.a[1] == "is_relative_to" and strip(t.a[2]) is p:
            d = strip(t.a[3])
        elif f.tr is True and is_t(t, "m") and t.a[1] == "startswith" and t.a[2] is p:
            ps = list(t.a[3].a[1:]) if is_t(t.a[3], "add") else strs.pieces(eng, s, t.a[3])
            if len(ps) == 2 and ps[1] in (C("/"), Ext("os.sep"), Ext("os.path.sep")):
                d = strip(ps[0])
        if d is not None and is_t(d, "str"):
            d = d.a[1]
        if d is not None and is_t(d, "call") and d.a[1] in ok_res:
            return d
    return None


def strip(t):
    while is_t(t, "call") and t.a[1] in ("pathlib.Path", "pathlib.PurePath", "builtins.str") or is_t(t, "str"):
        t = t.a[-1]
    return t


def common(eng, s, c, p, d):
    """c is commonpath of exactly p and d"""
    if not (is_t(c, "call") and c.a[1] == "os.path.commonpath"):
        return False
    x = c.a[2]
    its = x.a if x.tag == "tup" else x.a[1:] if is_t(x, "listval") else ()
    its = [strip(i) for i in its]
    return len(its) == 2 and p in its and strip(d) in its


def judge(ctx, eng, s, k, v, html, follow, dirs, X, method):
    rep = lambda rule, text: eng.report(rule, Q + ".__call__", s, text + f" (html={html}, follow_symlink={follow}, {method})")
    fs = events(s, "fs")
    start = starts(s)
    if method not in ("GET", "HEAD"):
        ctx.oblige("method")
        if fs or start or k != "raise" or status_of(eng, s, v) != 405:
            rep("method", "a request that is neither GET nor HEAD is not answered with 405")
        return
    for e in fs:
        ctx.oblige("contained")
        p, res = e[2], ("os.path.realpath", "os.path.abspath") if follow else ("os.path.realpath",)
        if not (is_t(p, "call") and p.a[1] in res):
            rep("symlinks", f"{e[1]} is called for {show(p)}, which is not a resolved path")
            continue
        d = contained(eng, s, p, res)
        if d is None:
            rep("contained", f"{e[1]} is called for {show(p)} without establishing that it is inside a directory")
        elif d.a[2] not in dirs:
            rep("contained", f"{e[1]} is called for a path inside {show(d.a[2])}, which is not a configured directory")
        elif follow and p.a[1] != d.a[1]:
            rep("contained", "the path and the directory are resolved differently")
    if events(s, "null"):
        ctx.oblige("error")
        if k != "raise" or status_of(eng, s, v) != 404:
            rep("not-found", f"a path with a null byte raises {show(v)}")
        return
    stats = list(dict.fromkeys((e[2], e[3]) for e in fs if e[1] != "open"))
    opened = [e[2] for e in fs if e[1] == "open"]
    groups = {"index": [], "page": [], "main": []}
    for x in stats:
        groups["index" if about(x[0], "index.html") else "page" if about(x[0], "404.html") else "main"].append(x)
    main, index, page = groups["main"], groups["index"], groups["page"]
    for p, how in main + index:
        if not mentions(p, X):
            rep("served", f"looks up {show(p)}, which does not depend on the requested path")
    for g in groups.values():
        order = [dirs.index(d.a[2]) for d in (contained(eng, s, p, ("os.path.realpath", "os.path.abspath")) for p, how in g) if d is not None and d.a[2] in dirs]
        if order != sorted(order):
            rep("served", "the directories are not searched in the order in which they are given")
        if any(how not in ("missing", "notdir") for p, how in g[:-1]):
            rep("served", "a later directory is consulted although an earlier one has the entry")
    bad = [how for p, how in stats if how in ("denied", "long", "other")]
    if bad:
        ctx.oblige("error")
        want = {"denied": 401, "long": 404, "other": None}[bad[0]]
        if k != "raise":
            rep("not-found", f"no exception for an entry whose status cannot be read ({bad[0]})")
        elif stats[-1] in page or stats[-1] in index:
            pass        # the property does not say what follows from an unreadable extra page
        elif want is not None and status_of(eng, s, v) != want or want is None and not is_t(v, "exc"):
            rep("not-found", f"{bad[0]}: raises {show(v)} with status {status_of(eng, s, v)}")
        return
    def last(g):
        return g[-1] if g and g[-1][1] in KINDS else (None, None)
    found, kind = last(main)
    ifound, ikind = last(index)
    pfound, pkind = last(page)
    if kind == "reg":
        ctx.oblige("file served")
        return served(eng, s, k, start, opened, found, 200, method, rep, "served")
    if not searched(eng, s, main, dirs, X, None):
        rep("served", "a directory that contains the path is not looked at")
    if html and kind == "dir":
        if not searched(eng, s, index, dirs, X, "index.html"):
            rep("html", "index.html of a directory is not looked for")
        if ikind == "reg":
            end = [eng.truth(s, T("m", "endswith", x, C("/"))) for x in (X, S("path"), *s.mon.get("scope path", ()))]
            end += [f.tr for t, f in s.facts.items() if is_t(t, "m") and t.a[1] == "endswith" and t.a[3] is C("/") and mentions(t, X)]
            end += [f.tr if is_t(t, "eq") else False if f.ne else True for t, f in s.facts.items() if last_char(t, X) and (is_t(t, "eq") or f.eq is C("/") or C("/") in f.ne)]
            slash = next((e for e in end if e is not None), None)
            if slash is None:
                rep("html", "index.html is answered without looking at the end of the path")
            elif slash:
                ctx.oblige("file served")
                served(eng, s, k, start, opened, ifound, 200, method, rep, "html")
            else:
                ctx.oblige("redirect")
                if k != "ok" or len(start) != 1 or cval_or(sfield(start[0], "status")) not in (301, 302, 307, 308) or opened:
                    return rep("html", "a directory URL without '/' is not redirected")
                loc = header(eng, s, start[0], "location")
                if loc is None or not redirect_ok(eng, s, loc, X):
                    rep("html", f"redirect to {show(loc) if loc is not None else None}")
            return
    if html:
        if not searched(eng, s, page, dirs, X, "404.html"):
            rep("html", "404.html is not looked for")
        if pkind == "reg":
            ctx.oblige("404 page")
            return served(eng, s, k, start, opened, pfound, 404, method, rep, "html")
    elif index or page:
        rep("html", "pages of the html mode are looked for without it")
    ctx.oblige("not found")
    if k != "raise" or status_of(eng, s, v) != 404 or start:
        rep("not-found", f"nothing servable was found, but {'the answer has status ' + show(sfield(start[0], 'status') or NONE) if start else show(v)}")


def searched(eng, s, g, dirs, X, name):
    """the search for one name either found something or passed every directory: by a look, or because the path is outside"""
    if g and g[-1][1] in KINDS:
        return True
    for d in dirs:
        if any(c is not None and c.a[2] is d for c in (contained(eng, s, p, ("os.path.realpath", "os.path.abspath")) for p, how in g)):
            continue
        for t, f in s.facts.items():
            m = about(t, name) if name else not about(t, "index.html") and not about(t, "404.html")
            if m and (mentions(t, d) or is_c(d) and about(t, cval(d) + "/" + (name or ""))) and (mentions(t, X) or name == "404.html") and (f.tr is False or f.ne):
                break
        else:
            return False
    return True


def cval_or(v):
    return cval(v) if v is not None and is_c(v) else None


def is_eq(s, t, c):
    f = s.facts.get(t)
    return f is not None and f.eq is C(c)


def status_of(eng, s, v):
    if v.tag == "ref" and eng.type_of(s, v) == "starlette.exceptions.HTTPException":
        return cval_or(s.heap[v].d.get("status_code"))
    return None


def header(eng, s, sn, name):
    h = sfield(sn, "headers")
    for it in (h.a[:-1] if h is not None and h.tag == "snaplist" else ()):
        if it.tag == "tup" and it.a[0] is C(name.encode()):
            return it.a[1]
    return None


def redirect_ok(eng, s, loc, X):
    """the request's URL with '/' after the path, quoted or not"""
    if is_t(loc, "m") and loc.a[1] == "encode":
        loc = loc.a[2]
    if is_t(loc, "call") and loc.a[1] == "urllib.parse.quote":
        safe = [loc.a[i + 1] for i in range(3, len(loc.a) - 1) if loc.a[i] is C("safe")] or list(loc.a[3:4])
        if not safe or not is_c(safe[0]) or not set("/:?=&%") <= set(cval(safe[0])):
            return False
        loc = loc.a[2]
    got = urls.text(urls.norm(eng, s, loc))
    path = "/static/<rest>" if X is S("rest") else "<path>"
    return got in (f"http://h.example{path}/?q=1", f"{path}/?q=1")


def served(eng, s, k, start, opened, p, status, method, rep, rule):
    if k != "ok" or len(start) != 1:
        rep(rule, f"{show(p)} is not served")
        return
    if sfield(start[0], "status") is not C(status):
        rep(rule, f"served with status {show(sfield(start[0], 'status', NONE))}, expected {status}")
    if method == "GET" and opened != [p] or method == "HEAD" and opened:
        rep(rule, f"opens {', '.join(map(show, opened)) or 'nothing'} for {method}, expected {show(p)}")
