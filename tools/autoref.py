"""development aid: behaviour-preserving rewrites of the whole package; every check must stay quiet on each

  python3-vt tools/autoref.py [OPERATOR...] [-f FILE] [-c CHECK,...] [-t]      (-t: also run the test suite on the result)
Works on scratch copies only."""
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def own(fn):
    """nodes of a function without nested functions / classes"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (*FN, ast.ClassDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(n))


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))


def N(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def cond_value(t):
    return t


class Tmp(ast.NodeTransformer):
    n = 0

    def fresh(self, base="tmp"):
        Tmp.n += 1
        return f"_{base}{Tmp.n}"


class RetTmp(Tmp):
    """return e -> r = e; return r"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        t = self.fresh("result")
        return [ast.Assign([N(t, True)], n.value), ast.Return(N(t))]


class IfSwap(Tmp):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class IfTmp(Tmp):
    """if test: -> c = test; if c:   (not for elif, the walrus or sys.version_info)"""
    def visit_If(self, n):
        els = n.orelse
        n.body = self.lst(n.body)
        n.orelse = els if len(els) == 1 and isinstance(els[0], ast.If) else self.lst(els)
        if "version_info" in ast.unparse(n.test) or "TYPE_CHECKING" in ast.unparse(n.test):
            return n
        t = self.fresh("cond")
        return [ast.Assign([N(t, True)], n.test), ast.If(N(t), n.body, n.orelse)]

    def lst(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out


class Elif(Tmp):
    """if/elif/else chains nested are the same tree; early return: if c: ...return; rest -> if c: ... else: rest"""
    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and i + 1 < len(body) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                rest = self.block(body[i + 1:])
                return body[:i] + [ast.If(s.test, s.body, rest)]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n
    visit_AsyncFunctionDef = visit_FunctionDef


class Unelse(Tmp):
    """if c: ...return else: B -> if c: ...return; B"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                out.append(ast.If(s.test, s.body, []))
                out.extend(self.block(s.orelse))
            else:
                out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, f, self.block(b))
        return n


class IfExp(Tmp):
    """x = a if c else b -> if c: x = a else: x = b (and for return)"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            e = n.value
            return ast.If(e.test, [ast.Assign(copy.deepcopy(n.targets), e.body)], [ast.Assign(copy.deepcopy(n.targets), e.orelse)])
        return n

    def visit_AnnAssign(self, n):
        if isinstance(n.value, ast.IfExp) and isinstance(n.target, ast.Attribute):
            e = n.value
            return ast.If(e.test, [ast.Assign([copy.deepcopy(n.target)], e.body)], [ast.Assign([copy.deepcopy(n.target)], e.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            e = n.value
            return ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
        return n


class BoolNest(Tmp):
    """if a and b: X (no else) -> if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class DeMorgan(Tmp):
    """a or b in tests -> not (not a and not b)"""
    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.flip(n.test)
        return n

    def flip(self, t):
        if isinstance(t, ast.BoolOp):
            op = ast.And() if isinstance(t.op, ast.Or) else ast.Or()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return t


class ListComp(Tmp):
    """x = [e for a in b if c] -> loop (in functions; one generator)"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def block(self, body):
        out = []
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (*FN, ast.ClassDef)):
                    setattr(s, f, self.block(b))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body)
            v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return)) else None
            if isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1 and not v.generators[0].is_async:
                t = self.fresh("items")
                g = v.generators[0]
                add = ast.Expr(ast.Call(ast.Attribute(N(t), "append", ast.Load()), [v.elt], [])) if isinstance(v, ast.ListComp) else ast.Assign([ast.Subscript(N(t), v.key, ast.Store())], v.value)
                inner = [add]
                for c in reversed(g.ifs):
                    inner = [ast.If(c, inner, [])]
                # the loop variable must not clobber a local
                ren = {x.id: self.fresh(x.id) for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                loop = ast.For(g.target, g.iter, inner, [])
                for part in [g.target, *inner]:
                    for x in ast.walk(part):
                        if isinstance(x, ast.Name) and x.id in ren:
                            x.id = ren[x.id]
                out.append(ast.Assign([N(t, True)], ast.List([], ast.Load()) if isinstance(v, ast.ListComp) else ast.Dict([], [])))
                out.append(loop)
                s.value = N(t)
            out.append(s)
        return out


class ArgTmp(Tmp):
    """statement level call f(a, b) -> x = a; y = b; f(x, y)   (names, constants, starred and lambdas left)"""
    def do(self, n, call):
        if not isinstance(call, ast.Call) or any(isinstance(a, ast.Starred) for a in call.args) or not isinstance(call.func, (ast.Name, ast.Attribute)):
            return n
        if isinstance(call.func, ast.Attribute) and not isinstance(call.func.value, (ast.Name, ast.Attribute)) or ast.unparse(call.func).split(".")[0] in ("super", "typing"):
            return n
        pre = []
        for i, a in enumerate(call.args):
            if isinstance(a, (ast.Name, ast.Constant, ast.GeneratorExp, ast.Lambda)):
                continue
            t = self.fresh("arg")
            pre.append(ast.Assign([N(t, True)], a))
            call.args[i] = N(t)
        for k in call.keywords:
            if k.arg is None or isinstance(k.value, (ast.Name, ast.Constant, ast.Lambda)):
                continue
            t = self.fresh("arg")
            pre.append(ast.Assign([N(t, True)], k.value))
            k.value = N(t)
        return pre + [n]

    def visit_Expr(self, n):
        v = n.value.value if isinstance(n.value, ast.Await) else n.value
        return self.do(n, v)

    def visit_Assign(self, n):
        v = n.value.value if isinstance(n.value, ast.Await) else n.value
        return self.do(n, v)

    def visit_Return(self, n):
        v = n.value.value if isinstance(n.value, ast.Await) else n.value
        return self.do(n, v)

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, FN) else s for s in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, (*FN, ast.ClassDef)) else s for s in n.body]
        return n


class Extract(Tmp):
    """method body -> a private method that the public one calls"""
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        names = {s.name for s in n.body if isinstance(s, FN)}
        out = []
        for s in n.body:
            out.append(s)
            if not isinstance(s, FN) or s.decorator_list or is_gen(s) and isinstance(s, ast.AsyncFunctionDef):
                continue
            if s.name.startswith("__") and s.name not in ("__init__", "__call__", "__getitem__", "__len__", "__contains__", "__eq__", "__repr__", "__str__", "__iter__"):
                continue
            src = ast.unparse(s)
            if "super()" in src or "__class__" in src or len(s.body) < 2 or s.args.vararg and s.args.kwarg and False:
                continue
            if ast.get_docstring(s) and len(s.body) < 3:
                continue
            a = s.args
            if not (a.posonlyargs + a.args) or (a.posonlyargs + a.args)[0].arg != "self":
                continue
            new = f"_do_{s.name.strip('_')}"
            if new in names:
                continue
            h = copy.deepcopy(s)
            h.name = new
            h.args.defaults = []
            h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
            if is_gen(s) and isinstance(s, ast.FunctionDef):
                pass
            call = ast.Call(ast.Attribute(N("self"), new, ast.Load()), [N(x.arg) for x in (a.posonlyargs + a.args)[1:]] + ([ast.Starred(N(a.vararg.arg), ast.Load())] if a.vararg else []),
                            [ast.keyword(x.arg, N(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, N(a.kwarg.arg))] if a.kwarg else []))
            s.body = [ast.Return(ast.Await(call) if isinstance(s, ast.AsyncFunctionDef) else call)]
            if s.name == "__init__":
                s.body = [ast.Expr(call)]
            out.append(h)
        n.body = out
        return n


class ExtractTest(Tmp):
    """if <test over self and parameters> in a method -> if self._test(params)"""
    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            out.append(s)
            if not isinstance(s, FN) or s.decorator_list or not s.args.args or s.args.args[0].arg != "self":
                continue
            params = [x.arg for x in s.args.args[1:] + s.args.kwonlyargs]
            for x in list(own(s)):
                if isinstance(x, ast.If) and not any(isinstance(y, (ast.NamedExpr, ast.Await, ast.Yield, ast.Lambda)) for y in ast.walk(x.test)) and len(ast.unparse(x.test)) > 12:
                    used = sorted({y.id for y in ast.walk(x.test) if isinstance(y, ast.Name)} - {"self"})
                    bound = {y.id for z in ast.walk(s) for y in ([z] if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store) else [])} | set(params) | {z.name for z in ast.walk(s) if isinstance(z, ast.ExceptHandler) and z.name} | {z.arg for z in [s.args.vararg, s.args.kwarg] if z}
                    bound |= {z.name for z in ast.walk(s) if isinstance(z, FN)}
                    need = [u for u in used if u in bound]
                    inner = {z.id for c in ast.walk(x.test) if isinstance(c, ast.comprehension) for z in ast.walk(c.target) if isinstance(z, ast.Name)}
                    need = [u for u in need if u not in inner]
                    nm = self.fresh("check")
                    out.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(u) for u in need], None, [], [], None, []), [ast.Return(x.test)], []))
                    x.test = ast.Call(ast.Attribute(N("self"), nm, ast.Load()), [N(u) for u in need], [])
        n.body = out
        return n


class Fstr(Tmp):
    """f"..{a}.." -> "..{}..".format(a)  (no conversions / specs)"""
    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion != -1) for v in n.values):
            return n
        text, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace("{", "{{").replace("}", "}}")
            else:
                text += "{}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])


class ForWhile(Tmp):
    """for x in xs: B -> it = iter(xs); while True: try: x = next(it) except StopIteration: break; B"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        t = self.fresh("it")
        return [ast.Assign([N(t, True)], ast.Call(N("iter"), [n.iter], [])),
                ast.While(ast.Constant(True), [ast.Try([ast.Assign([n.target], ast.Call(N("next"), [N(t)], []))], [ast.ExceptHandler(N("StopIteration"), None, [ast.Break()])], [], []), *n.body], [])]


class SelfTmp(Tmp):
    """attribute loads self.x used in a method without being stored there are read into a local first (plain methods without await, only simple data attributes of __init__)"""
    def visit_ClassDef(self, n):
        init = next((s for s in n.body if isinstance(s, FN) and s.name == "__init__"), None)
        if init is None:
            return n
        data = {t.attr for s in own(init) if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}
        stored = {x.attr for s in n.body if isinstance(s, FN) and s.name != "__init__" for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
        data -= stored
        for s in n.body:
            if isinstance(s, FN) and s.name == "__call__" and not is_gen(s):
                loads = {x.attr for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"} & data
                if loads:
                    for x in ast.walk(s):
                        for f, v in ast.iter_fields(x):
                            for i, y in (list(enumerate(v)) if isinstance(v, list) else [(None, v)]):
                                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name) and y.value.id == "self" and y.attr in loads:
                                    if i is None:
                                        setattr(x, f, N("_my_" + y.attr))
                                    else:
                                        v[i] = N("_my_" + y.attr)
                    k = 1 if ast.get_docstring(s) else 0
                    s.body[k:k] = [ast.Assign([N("_my_" + a, True)], ast.Attribute(N("self"), a, ast.Load())) for a in sorted(loads)]
        return n


class Rename(Tmp):
    """every local variable and parameter of inner functions is renamed (not parameters of public functions)"""
    def visit_FunctionDef(self, n):
        self.top(n)
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def top(self, n):
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {h.name for h in ast.walk(n) if isinstance(h, ast.ExceptHandler) and h.name}
        params = {a.arg for f in ast.walk(n) if isinstance(f, (*FN, ast.Lambda)) for a in [*f.args.posonlyargs, *f.args.args, *f.args.kwonlyargs, f.args.vararg, f.args.kwarg] if a}
        glob = {g for x in ast.walk(n) if isinstance(x, ast.Global) for g in x.names}
        names -= params | glob
        if any(isinstance(x, ast.ClassDef) for x in ast.walk(n)):
            return
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = x.id + "_v"
            elif isinstance(x, ast.ExceptHandler) and x.name in names:
                x.name += "_v"
            elif isinstance(x, ast.Nonlocal):
                x.names = [y + "_v" if y in names else y for y in x.names]


class Walrus(Tmp):
    """x = e; if x: -> if (x := e):"""
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and len(b) > 1 and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.Module, ast.ClassDef)):
                out = []
                for s in b:
                    p = out[-1] if out else None
                    if isinstance(s, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                        nm = p.targets[0].id
                        if isinstance(s.test, ast.Name) and s.test.id == nm:
                            s.test = ast.NamedExpr(N(nm, True), p.value)
                            out.pop()
                        elif isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == nm:
                            s.test.left = ast.NamedExpr(N(nm, True), p.value)
                            out.pop()
                    out.append(s)
                setattr(n, f, out)
        return n


class DictCall(Tmp):
    """{"a": x} with identifier keys -> dict(a=x)"""
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() and k.value not in ("from", "class", "type") for k in n.keys):
            return ast.Call(N("dict"), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


class DictSteps(Tmp):
    """x = {...} -> x = {}; x[k] = v; ..."""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.Dict) and n.value.keys and all(n.value.keys) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            t = n.targets[0].id
            return [ast.Assign([N(t, True)], ast.Dict([], []))] + [ast.Assign([ast.Subscript(N(t), k, ast.Store())], v) for k, v in zip(n.value.keys, n.value.values)]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, (*FN, ast.ClassDef)) else s for s in n.body]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, FN) else s for s in n.body]
        return n


class TryElse(Tmp):
    """return await x in function end unaffected; `with a, b` -> nested with"""
    def visit_With(self, n):
        self.generic_visit(n)
        if len(n.items) > 1:
            body = n.body
            for it in reversed(n.items):
                body = [type(n)([it], body)]
            return body[0]
        return n
    visit_AsyncWith = visit_With


class GetDefault(Tmp):
    """d.get(k, v) with constants -> d[k] if k in d else v  (names only)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 2 and isinstance(n.func.value, ast.Name) and n.func.value.id in ("scope", "message", "kwargs", "environ", "child_scope") and isinstance(n.args[0], ast.Constant) and not n.keywords:
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]), ast.Subscript(copy.deepcopy(n.func.value), n.args[0], ast.Load()), n.args[1])
        return n


class AugPlain(Tmp):
    """x += e -> x = x + e for names bound to text/bytes/ints (not lists): only when e is a constant or f-string or call of len/encode"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, (ast.Name, ast.Attribute)) and isinstance(n.value, (ast.JoinedStr, ast.Constant)):
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(load, n.op, n.value))
        return n


class EqOr(Tmp):
    """x in ("a", "b") -> x == "a" or x == "b" (x a name or attribute)"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)) and all(isinstance(e, ast.Constant) for e in n.comparators[0].elts) and n.comparators[0].elts and isinstance(n.left, (ast.Name, ast.Attribute, ast.Subscript)):
            r = ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts])
            return ast.UnaryOp(ast.Not(), r) if isinstance(n.ops[0], ast.NotIn) else r
        return n


class Isinst(Tmp):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
            return ast.BoolOp(ast.Or(), [ast.Call(N("isinstance"), [copy.deepcopy(n.args[0]), c], []) for c in n.args[1].elts])
        return n


class TryReturn(Tmp):
    """try: return e except -> try: r = e except ... else: return r"""
    def visit_Try(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.Return) and n.body[0].value is not None and n.handlers and not n.orelse:
            t = self.fresh("value")
            n.body = [ast.Assign([N(t, True)], n.body[0].value)]
            n.orelse = [ast.Return(N(t))]
        return n


class Nested(Tmp):
    """await f(...) statement in a method -> inner coroutine function that is awaited"""
    def visit_AsyncFunctionDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Await) and not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s)):
                t = self.fresh("step")
                out.append(ast.AsyncFunctionDef(t, ast.arguments([], [], None, [], [], None, []), [s], []))
                out.append(ast.Expr(ast.Await(ast.Call(N(t), [], []))))
            else:
                out.append(s)
        n.body = out
        return n


class RangeFor(Tmp):
    """for x in xs: B -> seq = list(xs); for i in range(len(seq)): x = seq[i]; B   (loops without suspension point: xs may change while suspended)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, (ast.Await, ast.Yield)) for x in ast.walk(n)):
            return n
        t, i = self.fresh("seq"), self.fresh("i")
        return [ast.Assign([N(t, True)], ast.Call(N("list"), [n.iter], [])), self.loop(n, t, i)]

    def loop(self, n, t, i):
        return ast.For(N(i, True), ast.Call(N("range"), [ast.Call(N("len"), [N(t)], [])], []), [ast.Assign([n.target], ast.Subscript(N(t), N(i), ast.Load())), *n.body], [])


class IndexWhile(RangeFor):
    """for x in xs: B -> seq = list(xs); i = 0; while i < len(seq): x = seq[i]; i += 1; B"""
    def visit_For(self, n):
        r = super().visit_For(n)
        return r if not isinstance(r, list) else [r[0], ast.Assign([ast.Name(r[1][0], ast.Store())], ast.Constant(0)), r[1][1]]

    def loop(self, n, t, i):
        return i, ast.While(ast.Compare(N(i), [ast.Lt()], [ast.Call(N("len"), [N(t)], [])]), [ast.Assign([n.target], ast.Subscript(N(t), N(i), ast.Load())), ast.AugAssign(N(i, True), ast.Add(), ast.Constant(1)), *n.body], [])


class Enumerate(Tmp):
    """for x in xs: B -> for i, x in enumerate(xs): B"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.target = ast.Tuple([N(self.fresh("i"), True), n.target], ast.Store())
        n.iter = ast.Call(N("enumerate"), [n.iter], [])
        return n


class AsyncFor(Tmp):
    """async for x in xs: B -> it = xs.__aiter__(); while True: try: x = await it.__anext__() except StopAsyncIteration: break; B"""
    def visit_AsyncFor(self, n):
        self.generic_visit(n)
        t = self.fresh("it")
        return [ast.Assign([N(t, True)], ast.Call(ast.Attribute(n.iter, "__aiter__", ast.Load()), [], [])),
                ast.While(ast.Constant(True), [ast.Try([ast.Assign([n.target], ast.Await(ast.Call(ast.Attribute(N(t), "__anext__", ast.Load()), [], [])))], [ast.ExceptHandler(N("StopAsyncIteration"), None, [ast.Break()])], [], []), *n.body], [])]


class WhileTrue(Tmp):
    """while c: B -> while True: if not c: break; B"""
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test, ast.Constant):
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []), *n.body], [])


class WhileFlag(Tmp):
    """while True: ... break (first level) -> going = True; while going: ... going = False; break"""
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or not (isinstance(n.test, ast.Constant) and n.test.value is True):
            return n
        t = self.fresh("going")

        def fix(body):
            out = []
            for s in body:
                if isinstance(s, ast.Break):
                    out.append(ast.Assign([N(t, True)], ast.Constant(False)))
                elif not isinstance(s, (ast.For, ast.While, ast.AsyncFor, *FN)):
                    for f in ("body", "orelse", "finalbody"):
                        b = getattr(s, f, None)
                        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                            setattr(s, f, fix(b))
                    for h in getattr(s, "handlers", []):
                        h.body = fix(h.body)
                out.append(s)
            return out
        n.body = fix(n.body)
        n.test = N(t)
        return [ast.Assign([N(t, True)], ast.Constant(True)), n]


class AnyLoop(ListComp):
    """return any(c for x in xs) -> loop; also x = any(...), all(...)"""
    def block(self, body):
        out = []
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (*FN, ast.ClassDef)):
                    setattr(s, f, self.block(b))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body)
            field = next((f for f in ("value", "test") if isinstance(getattr(s, f, None), ast.Call) and isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return, ast.If))), None)
            v = getattr(s, field) if field else None
            if v is not None and isinstance(v.func, ast.Name) and v.func.id in ("any", "all") and isinstance(v.args[0], ast.GeneratorExp) and len(v.args[0].generators) == 1:
                t = self.fresh("found")
                g = v.args[0].generators[0]
                want = v.func.id == "any"
                inner = [ast.If(v.args[0].elt if want else ast.UnaryOp(ast.Not(), v.args[0].elt), [ast.Assign([N(t, True)], ast.Constant(want)), ast.Break()], [])]
                for c in reversed(g.ifs):
                    inner = [ast.If(c, inner, [])]
                out.append(ast.Assign([N(t, True)], ast.Constant(not want)))
                out.append(ast.For(g.target, g.iter, inner, []))
                setattr(s, field, N(t))
            out.append(s)
        return out


class CompMap(Tmp):
    """[e for x in xs] -> list(map(lambda x: e, xs))"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) > 1 or g.is_async or g.ifs or not isinstance(g.target, ast.Name) or any(isinstance(x, (ast.Await, ast.NamedExpr)) for x in ast.walk(n)):
            return n
        return ast.Call(N("list"), [ast.Call(N("map"), [ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt), g.iter], [])], [])


class ReturnFlag(Tmp):
    """for ...: ... return e (directly in the loop, not in try) -> result = e; break, returned after the loop: for loops that are the last but one statement"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        out = []
        for i, s in enumerate(n.body):
            rest = n.body[i + 1:]
            if isinstance(s, ast.For) and not s.orelse and len(rest) == 1 and isinstance(rest[0], (ast.Return, ast.Raise)) and not any(isinstance(x, (ast.Break, ast.Try, ast.With, ast.AsyncWith, ast.While)) or x is not s and isinstance(x, ast.For) for x in ast.walk(s)):
                t = self.fresh("result")
                if self.fix(s.body, t):
                    s.orelse = rest
                    out += [s, ast.Return(N(t))]
                    break
            out.append(s)
        n.body = out
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def fix(self, body, t):
        done = False
        for s in list(body):
            if isinstance(s, ast.Break):
                return False
            if isinstance(s, ast.Return):
                i = body.index(s)
                body[i:i + 1] = [ast.Assign([N(t, True)], s.value or ast.Constant(None)), ast.Break()]
                done = True
            elif isinstance(s, ast.If):
                done = self.fix(s.body, t) or done
                done = self.fix(s.orelse, t) or done
            elif any(isinstance(x, (ast.Return, ast.Break)) for x in ast.walk(s)):
                return False
        return done


OPS = {c.__name__: c for c in list(globals().values()) if isinstance(c, type) and issubclass(c, Tmp) and c is not Tmp}


def run(op, files, checks, tests):
    d = tempfile.mkdtemp(prefix="samut")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns("__pycache__", ".git", "docs", ".mypy_cache"))
        n = 0
        for r, _, fs in os.walk(d + "/r/starlette"):
            for f in fs:
                p = os.path.join(r, f)
                rel = os.path.relpath(p, d + "/r/starlette")
                if f.endswith(".py") and (not files or rel in files):
                    src = open(p).read()
                    tree = ast.parse(src)
                    before = ast.unparse(tree)
                    text = ast.unparse(ast.fix_missing_locations(OPS[op]().visit(tree)))
                    compile(text, p, "exec")
                    if text != before:
                        n += 1
                        open(p, "w").write(text)
        res = [f"{op}: {n} files"]
        if tests:
            env = dict(os.environ, PYTHONPATH=d + "/r", PYTHONDONTWRITEBYTECODE="1", PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONHASHSEED="0")
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-rf", "-p", "no:cacheprovider", "--timeout=20", "--basetemp=" + d + "/t", "tests"], cwd=d + "/r", env=env, capture_output=True, text=True, timeout=200)
            bad = [l[:150] for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR")) and "invalid_dir_permissions" not in l]
            res += bad[:4]
        env = dict(os.environ, SA_REPO=d + "/r", SA_OUT=d)

        def chk(c):
            try:
                r = subprocess.run([sys.executable, "-m", "sa.run", c], cwd=V, env=env, capture_output=True, text=True, timeout=900)
                return c, r.returncode, r.stdout + r.stderr[-500:]
            except subprocess.TimeoutExpired:
                return c, "timeout", ""
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
            for c, rc, out in ex.map(chk, checks):
                if rc != 0:
                    res.append(f"   {c} rc {rc}: " + " / ".join(x.strip()[:170].replace(d, "") for x in out.splitlines()[:2]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(argv):
    files, tests = [], "-t" in argv
    argv = [a for a in argv if a != "-t"]
    checks = sorted(f[:-3].upper() for f in os.listdir(V + "/sa/checks") if f[0] == "c" and f[1].isdigit())
    if "-f" in argv:
        i = argv.index("-f")
        files = argv[i + 1].split(",")
        del argv[i:i + 2]
    if "-c" in argv:
        i = argv.index("-c")
        checks = argv[i + 1].split(",")
        del argv[i:i + 2]
    for op in argv or OPS:
        print("\n".join(run(op, files, checks, tests)), flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
