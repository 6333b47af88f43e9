"""Configuration lookup and the read guard of Environ, by path analysis of client programs.

Config is built over every combination of environment, file and default for a key, with and without a prefix, and asked with an
unknown cast that returns or raises, with bool over every kind of value, and without a cast; the config file is a table of line
forms propagated as constants.  Environ is driven through reads, writes and deletions of the same and of other keys over an
environment that has the keys and one that has not.
"""
from ..interp import Cut
from ..mw import *
from .common import *

CLIENT33 = '''
from starlette.config import Config, EnvironError, Environ, undefined
import pathlib

def ask(environ, file, prefix, key, cast, has, default):
    c = Config(file, environ=environ, env_prefix=prefix)
    if has:
        return c(key, cast=cast, default=default)
    return c(key, cast=cast)

def ask_get(environ, file, prefix, key, cast, has, default):
    c = Config(file, environ, prefix)
    if has:
        return c.get(key, cast, default)
    return c.get(key, cast)

def how(e, read, key):
    try:
        if read == "item":
            e[key]
        elif read == "get":
            e.get(key)
        elif read == "in":
            key in e
        elif read == "config":
            Config(environ=e)(key, default=None)
        elif read == "iter":
            list(e)
        elif read == "len":
            len(e)
    except KeyError:
        pass

def guarded(environ, read, write, key, other):
    e = Environ(environ)
    how(e, read, key)
    try:
        if write == "set":
            e[other] = "new"
        elif write == "del":
            del e[other]
        elif write == "update":
            e.update({other: "new"})
        elif write == "setdefault":
            e.setdefault(other, "new")
        elif write == "pop":
            e.pop(other)
    except EnvironError:
        return "refused"
    except KeyError:
        return "missing"
    return "done"

def apart(environ):
    a, b = Environ(environ), Environ(environ)
    how(a, "item", "K")
    b["K"] = "new"
    return "done"
'''
Q = "starlette.config.Config"
LINES = ["# FIRST=1\n", "KEY=file\n", "\n", "SPACED = a b \n", "QUOTED='x=y'\n", 'DOUBLE="d"\n', "NOTHING\n", "EMPTY=\n", "  #IN=2\n", "TWICE=1\n", "TWICE=2\n", "HASH=a#b\n", "LAST=end"]
FILE = {"KEY": "file", "SPACED": "a b", "QUOTED": "x=y", "DOUBLE": "d", "EMPTY": "", "TWICE": "2", "HASH": "a#b", "LAST": "end", "FIRST": None, "IN": None, "NOTHING": None, "#IN": None, "# FIRST": None}
BOOLS = {"true": True, "True": True, "TRUE": True, "1": True, "false": False, "False": False, "0": False, "yes": None, "": None, "on": None, "2": None, " true": None}


class Env33(MwEnv):
    def on_ext(self, eng, st, q, args, kwargs, node):
        if q in ("os.path.isfile", "os.path.exists"):
            return ok(st, TRUE)
        if q in ("builtins.open", "io.open"):
            return ok(st, T("file", args[0]))
        return super().on_ext(eng, st, q, args, kwargs, node)

    def on_method(self, eng, st, recv, name, args, kwargs, node):
        if is_t(recv, "file") or is_t(recv, "enter") and is_t(recv.a[1], "file"):
            if name == "readlines":
                return ok(st, eng.new_list(st, "lines", [C(x) for x in LINES]))
            if name == "read":
                return ok(st, C("".join(LINES)))
            if name == "close":
                return ok(st, NONE)
        if name in ("is_file", "exists"):
            return ok(st, TRUE)
        if name == "read_text":
            return ok(st, C("".join(LINES)))
        return super().on_method(eng, st, recv, name, args, kwargs, node)

    def segments(self, eng, st, it, node, is_async):
        if is_t(it, "file") or is_t(it, "enter") and is_t(it.a[1], "file"):
            return [("ok", st, [("known", C(x)) for x in LINES])]
        return super().segments(eng, st, it, node, is_async)

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "cast":
            outs = []
            for how in ("ok", "builtins.ValueError", "builtins.TypeError", "other"):
                s = st.fork()
                s.note(eng.loc(node), f"cast: {how}")
                self.ev(s, "cast", how, args[0] if len(args) == 1 and not kwargs else None, None)
                if how == "ok":
                    outs += ok(s, T("casted", *args))
                elif how == "other":
                    x = T("exc", "builtins.LookupError", S("cast"))
                    outs.append(("raise", s, x))
                else:
                    outs.append(("raise", s, T("exc", how, S("cast"))))
            return outs
        return super().on_call(eng, st, name, args, kwargs, node)


def run(ctx):
    ctx.rule("precedence", "a key (with the prefix) is taken from the environment if it is there, else from the file, else from the default if one is given (None and false ones included), else KeyError")
    ctx.rule("cast", "the value, or default, is passed once through the cast unless there is none or the value is None; ValueError and TypeError of the cast become ValueError, others propagate")
    ctx.rule("bool", "cast to bool accepts exactly true, 1, false and 0 in any case for strings; other values are cast")
    ctx.rule("file", "the file gives the part after the first '=' of every line that is not a comment, without surrounding blanks and quotes; the last of several wins")
    ctx.rule("guard", "a key that was looked up (item, get, in, Config) can no longer be set or deleted: EnvironError and the environment unchanged; keys that were not can")
    ctx.client(CLIENT33)
    for fn in ("ask", "ask_get"):
        for prefix in ("", "P_"):
            for env in (True, False, "other"):
                for file in (True, False):
                    for has, default in ((False, NONE), (True, NONE), (True, S("default")), (True, FALSE), (True, C(""))):
                        for cast in ("none", "cast"):
                            get(ctx, fn, prefix, env, file, has, default, cast)
    for v in BOOLS:
        for src in ("env", "default"):
            boolean(ctx, v, src)
    for d in (TRUE, FALSE, C(1), NONE):
        boolean(ctx, d, "raw")
    for k, v in FILE.items():
        file_value(ctx, k, v)
    for read in ("item", "get", "in", "config", "iter", "len", "nothing"):
        for write in ("set", "del", "update", "setdefault", "pop"):
            for same in (True, False):
                for present in (True, False):
                    guard(ctx, read, write, same, present)
    apart(ctx)
    ctx.need("precedence", 200)
    ctx.need("cast", 100)
    ctx.need("bool", 20)
    ctx.need("file", 13)
    ctx.need("guard", 60)
    ctx.assume("the environment is a mapping; config files are the listed line forms")


def start(ctx):
    eng = ctx.engine(Env33())
    eng.max_steps = 60_000
    st = eng.start_state()
    st.facts[S("path")] = Fact(ne=frozenset([NONE]))
    return eng, st


def call(ctx, eng, st, name, args):
    fn = eng.force(st, eng.p.lookup_global(eng.p.client, name))
    return list(eng.run_call(st, fn, args))


def exc_is(eng, s, v, cls):
    n = v.a[1] if is_t(v, "exc") else eng.type_of(s, v)
    return n is not None and eng.p.issub(n, cls)


def get(ctx, fn, prefix, env, file, has, default, cast):
    eng, st = start(ctx)
    if default is S("default"):
        mod = eng.p.modules.get("starlette.config")
        und = eng.force(st, eng.p.lookup_global(mod, "undefined")) if mod and "undefined" in mod.defs else NONE
        st.facts[default] = Fact(ne=frozenset([NONE, und]))
    key = prefix + "KEY"
    st.facts[S("envval")] = Fact(isa=frozenset(["builtins.str"]), ne=frozenset([NONE]))
    st.facts[S("cast")] = Fact(ne=frozenset([NONE, Ext("builtins.bool")]), tr=True)
    d = {C("OTHER"): C("o")}
    if env is True:
        d[C(key)] = S("envval")
    elif env == "other":
        d[C("P_" + key if not prefix else "KEY")] = S("wrong")
    e = eng.new_dict(st, "environ", d, None)
    what = f"key {'in' if env is True else 'not in'} the environment, {'with' if file else 'without'} file, default {show(default) if has else 'none'}, prefix {prefix!r}"
    want = S("envval") if env is True else C("file") if file and not prefix else default if has else None
    try:
        outs = call(ctx, eng, st, fn, [e, S("path") if file else NONE, C(prefix), C("KEY"), S("cast") if cast == "cast" else NONE, B(has), default])
    except Cut as ex:
        return ctx.undecided(f"{what}: {ex}")
    for k, s, v in outs:
        ctx.oblige("precedence")
        rep = lambda rule, t: eng.report(rule, Q + ".get", s, f"{what}: {t}")
        casts = events(s, "cast")
        if want is None:
            if k != "raise" or not exc_is(eng, s, v, "builtins.KeyError") or casts:
                rep("precedence", f"{'raises' if k == 'raise' else 'gives'} {show(v)} instead of KeyError")
            continue
        if cast == "none" or want is NONE:
            if k != "ok" or v is not want:
                rep("precedence", f"{'raises' if k == 'raise' else 'gives'} {show(v)}, expected {show(want)}")
            continue
        ctx.oblige("cast")
        if len(casts) != 1 or casts[0][2] is not want:
            rep("cast" if casts and len(casts) != 1 else "precedence", f"{k} {show(v)}; the cast gets {[str(c) for c in casts]}, expected {show(want)} once")
            continue
        how = casts[0][1]
        if how == "ok" and (k != "ok" or v is not T("casted", want)):
            rep("cast", f"{'raises' if k == 'raise' else 'gives'} {show(v)} instead of what the cast returned")
        elif how in ("builtins.ValueError", "builtins.TypeError") and (k != "raise" or not exc_is(eng, s, v, "builtins.ValueError")):
            rep("cast", f"{how} of the cast: {'raises' if k == 'raise' else 'gives'} {show(v)} instead of ValueError")
        elif how == "other" and (k != "raise" or not is_t(v, "exc") or v.a[1] != "builtins.LookupError"):
            rep("cast", f"another exception of the cast becomes {show(v)}")


def boolean(ctx, v, src):
    eng, st = start(ctx)
    e = eng.new_dict(st, "environ", {C("KEY"): C(v)} if src == "env" else {}, None)
    raw = v if src == "raw" else C(v)
    want = BOOLS[v] if src != "raw" else None if raw is NONE else bool(cval(raw))
    for k, s, r in call(ctx, eng, st, "ask", [e, NONE, C(""), C("KEY"), Ext("builtins.bool"), B(src != "env"), raw if src != "env" else NONE]):
        ctx.oblige("bool")
        rep = lambda t: eng.report("bool", Q + "._perform_cast", s, f"{show(raw)} ({'environment' if src == 'env' else 'default'}) as bool {t}")
        if raw is NONE:
            if k != "ok" or r is not NONE:
                rep(f"gives {show(r)}")
        elif want is None:
            if k != "raise" or not exc_is(eng, s, r, "builtins.ValueError"):
                rep(f"{'raises' if k == 'raise' else 'gives'} {show(r)}, expected ValueError")
        elif k != "ok" or eng.truth(s, r) is not want or not (r in (TRUE, FALSE) or is_t(r, "call") or is_t(r, "not")):
            rep(f"{'raises' if k == 'raise' else 'gives'} {show(r)}, expected {want}")


def file_value(ctx, key, want):
    eng, st = start(ctx)
    e = eng.new_dict(st, "environ", {}, None)
    for k, s, r in call(ctx, eng, st, "ask", [e, S("path"), C(""), C(key), NONE, FALSE, NONE]):
        ctx.oblige("file")
        rep = lambda t: eng.report("file", Q + "._read_file", s, f"{key!r} {t}")
        if want is None:
            if k != "raise" or not exc_is(eng, s, r, "builtins.KeyError"):
                rep(f"is found in the file: {show(r)}")
        elif k != "ok" or r is not C(want):
            rep(f"{'raises' if k == 'raise' else 'is'} {show(r)}, expected {want!r}")


def guard(ctx, read, write, same, present):
    eng, st = start(ctx)
    target = "K" if same else "J"
    e = eng.new_dict(st, "environ", {C("K"): C("k"), C("J"): C("j")} if present else {C("X"): C("x")}, None)
    before = dict(st.heap[e].d)
    locked = same and read in ("item", "get", "in", "config")
    own = write in ("setdefault", "pop")            # these look the key up themselves first
    what = f"after {read} of 'K', {write} of {target!r} ({'present' if present else 'absent'})"
    try:
        outs = call(ctx, eng, st, "guarded", [e, C(read), C(write), C("K"), C(target)])
    except Cut as ex:
        return ctx.undecided(f"{what}: {ex}")
    for k, s, r in outs:
        ctx.oblige("guard")
        rep = lambda t: eng.report("guard", "starlette.config.Environ", s, f"{what}: {t}")
        now = {x: v for x, v in s.heap[e].d.items() if v is not ABSENT}
        if k != "ok" or not is_c(r):
            rep(f"raises {show(r)}")
            continue
        r = cval(r)
        if write == "setdefault" and present:
            want = "done"
        elif write == "pop" and not present:
            want = "missing"
        elif own:
            want = "refused"
        elif locked:
            want = "refused"
        elif write == "del" and not present:
            want = "missing"
        else:
            want = "done"
        if r != want:
            rep(f"{r}, expected {want}")
        expect = dict(before)
        if want == "done" and not own:
            if write == "del":
                expect.pop(C(target))
            else:
                expect[C(target)] = C("new")
        if now != expect:
            rep(f"the environment has {sorted(show(x) for x in now)}")


def apart(ctx):
    eng, st = start(ctx)
    e = eng.new_dict(st, "environ", {C("K"): C("k")}, None)
    for k, s, r in call(ctx, eng, st, "apart", [e]):
        ctx.oblige("guard")
        if k != "ok":
            eng.report("guard", "starlette.config.Environ", s, "a key read through one Environ cannot be set through another")
