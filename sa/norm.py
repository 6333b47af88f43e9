"""Loops written with an explicit iterator are read as the for loops they are.

    it = iter(X)                                        for T in X:
    while True:                                             B
        try: T = next(it)                 ->            else:
        except StopIteration: H; break                      H
        B

and the same with X.__iter__()/it.__next__(), aiter/anext and async for, where nothing else uses the iterator.  Loops over the
indexes of a sequence that they only read (for i in range(len(s)): ... s[i] ...; i = 0, while i < len(s): ... i += 1) likewise
become loops over its elements.
"""
import ast

FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def normalise(tree):
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            block(f, f.body)
    return tree


def block(fn, body):
    for s in body:
        if isinstance(s, (*FN, ast.ClassDef)):
            continue
        for x in (s, *getattr(s, "handlers", []), *getattr(s, "cases", [])):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(x, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    block(fn, b)
    i = 0
    while i < len(body):
        if isinstance(body[i], ast.For):
            body[i] = unnumbered(fn, over_range(fn, body[i]))
        if isinstance(body[i], ast.While):
            j = i - 1
            while j >= 0:
                r = loop(fn, body[j], body[i]) or counted(fn, body[j], body[i])
                if r is not None:
                    body[i] = r
                    del body[j]
                    i -= 1
                    break
                if not quiet(body[j]):
                    break
                j -= 1
        i += 1


def quiet(s):
    """a statement between the two that the iterable cannot depend on"""
    return isinstance(s, (ast.Assign, ast.AnnAssign)) and (s.value is None or isinstance(s.value, (ast.Constant, ast.List, ast.Dict)) and not list(ast.iter_child_nodes(s.value))[1:])


def called(e, names, method):
    """the argument of iter(x) / x.__iter__()"""
    if not isinstance(e, ast.Call) or e.keywords:
        return None
    if isinstance(e.func, ast.Name) and e.func.id in names and len(e.args) == 1:
        return e.args[0]
    if isinstance(e.func, ast.Attribute) and e.func.attr == method and not e.args:
        return e.func.value
    return None


def loop(fn, first, w):
    if isinstance(first, ast.Assign) and len(first.targets) == 1:
        name, value = first.targets[0], first.value
    elif isinstance(first, ast.AnnAssign) and first.value is not None:
        name, value = first.target, first.value
    else:
        return None
    if not isinstance(name, ast.Name) or w.orelse or not (isinstance(w.test, ast.Constant) and w.test.value) or not w.body or not isinstance(w.body[0], ast.Try):
        return None
    t = w.body[0]
    if t.finalbody or len(t.body) != 1 or len(t.handlers) != 1 or not isinstance(t.handlers[0].type, ast.Name) or t.handlers[0].name:
        return None
    step = t.body[0]
    if not isinstance(step, ast.Assign) or len(step.targets) != 1:
        return None
    h = t.handlers[0].body
    for isasync in (False, True):
        over = called(value, ("aiter",) if isasync else ("iter",), "__aiter__" if isasync else "__iter__")
        e = step.value
        if isasync:
            if not isinstance(e, ast.Await):
                continue
            e = e.value
        it = called(e, ("anext",) if isasync else ("next",), "__anext__" if isasync else "__next__")
        if over is None or not isinstance(it, ast.Name) or it.id != name.id or t.handlers[0].type.id != ("StopAsyncIteration" if isasync else "StopIteration"):
            continue
        if sum(isinstance(x, ast.Name) and x.id == name.id for x in ast.walk(fn)) != 2 + isinstance(first, ast.AnnAssign) * 0:
            return None
        if isinstance(h[-1], ast.Break):
            h = h[:-1]
        elif not isinstance(h[-1], (ast.Return, ast.Raise)):
            return None
        if any(isinstance(x, (ast.Break, ast.Continue)) for s in h for x in ast.walk(s)):
            return None
        body = t.orelse + w.body[1:] or [ast.copy_location(ast.Pass(), w)]
        return ast.copy_location((ast.AsyncFor if isasync else ast.For)(target=step.targets[0], iter=over, body=body, orelse=h, type_comment=None), w)
    return None


def is_len(e):
    """the s of len(s), for a variable or attribute s"""
    ok = isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and not e.keywords
    x = e.args[0] if ok else None
    while isinstance(x, ast.Attribute):
        x = x.value
    return e.args[0] if isinstance(x, ast.Name) else None


MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "appendleft", "popleft"}


def elements(fn, w, seq, i, body):
    """the body with s[i] replaced by a variable: (target, body, is i used otherwise), None if the loop does more than read s"""
    key = ast.dump(seq)
    root = seq
    while isinstance(root, ast.Attribute):
        root = root.value
    same = lambda x: isinstance(x, (ast.Name, ast.Attribute)) and ast.dump(x) == key
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id in (i, root.id) and isinstance(x.ctx, (ast.Store, ast.Del)):
                return None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(seq, ast.Attribute) and x.attr == seq.attr:
                return None
            if isinstance(x, ast.Subscript) and same(x.value) and isinstance(x.ctx, (ast.Store, ast.Del)):
                return None
            if isinstance(x, ast.Attribute) and x.attr in MUTATORS and same(x.value):
                return None
            if isinstance(x, FN) and any(isinstance(y, ast.Name) and y.id == i for y in ast.walk(x)):
                return None
    at = lambda x: isinstance(x, ast.Subscript) and same(x.value) and isinstance(x.slice, ast.Name) and x.slice.id == i
    first = body[0]
    if isinstance(first, ast.Assign) and len(first.targets) == 1 and at(first.value):
        target, body = first.targets[0], body[1:] or [ast.copy_location(ast.Pass(), first)]
        if any(at(x) for s in body for x in ast.walk(s)):
            target, body = None, [first] + body
    else:
        target = None
    if target is None:
        if not any(at(x) for s in body for x in ast.walk(s)):
            return None
        t = f"_element{w.lineno}_{w.col_offset}"

        class Put(ast.NodeTransformer):
            def visit_Subscript(self, n):
                return ast.copy_location(ast.Name(t, ast.Load()), n) if at(n) else self.generic_visit(n)
        body = [Put().visit(s) for s in body]
        target = ast.copy_location(ast.Name(t, ast.Store()), w)
    return target, body, any(isinstance(x, ast.Name) and x.id == i for s in body for x in ast.walk(s))


def over_range(fn, f):
    if not (isinstance(f.target, ast.Name) and isinstance(f.iter, ast.Call) and isinstance(f.iter.func, ast.Name) and f.iter.func.id == "range" and not f.iter.keywords):
        return f
    a = f.iter.args
    seq = is_len(a[-1]) if len(a) == 1 or len(a) == 2 and isinstance(a[0], ast.Constant) and a[0].value == 0 else None
    i = f.target.id
    if seq is None or isinstance(seq, ast.Name) and seq.id == i or any(isinstance(x, ast.Name) and x.id == i for x in outside(fn, f)):
        return f
    r = elements(fn, f, seq, i, f.body)
    if r is None:
        return f
    target, body, used = r
    if used:
        target = ast.copy_location(ast.Tuple([f.target, target], ast.Store()), f)
        seq = ast.copy_location(ast.Call(ast.copy_location(ast.Name("enumerate", ast.Load()), f), [seq], []), f)
    return ast.copy_location(ast.For(target=target, iter=seq, body=body, orelse=f.orelse, type_comment=None), f)


def outside(fn, s):
    inner = {id(x) for x in ast.walk(s)}
    return [x for x in ast.walk(fn) if id(x) not in inner]


def counted(fn, first, w):
    if not (isinstance(first, ast.Assign) and len(first.targets) == 1 and isinstance(first.targets[0], ast.Name) and isinstance(first.value, ast.Constant) and first.value.value == 0):
        return None
    i, t = first.targets[0].id, w.test
    if not (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == i and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))):
        return None
    seq = is_len(t.comparators[0])
    if seq is None:
        return None
    if sum(isinstance(x, ast.Name) and x.id == i for x in outside(fn, w)) != 1:
        return None
    step = [s for s in w.body if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == i and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and s.value.value == 1
            or isinstance(s, ast.Assign) and ast.unparse(s) in (f"{i} = {i} + 1", f"{i} = 1 + {i}")]
    if len(step) != 1:
        return None
    n = w.body.index(step[0])
    uses = lambda part: any(isinstance(x, ast.Name) and x.id == i for s in part for x in ast.walk(s))
    if uses(w.body[n + 1:]) or any(isinstance(x, ast.Continue) for s in w.body[:n] for x in ast.walk(s)):
        return None
    r = elements(fn, w, seq, i, w.body[:n] + w.body[n + 1:])
    if r is None or r[2]:
        return None
    return ast.copy_location(ast.For(target=r[0], iter=seq, body=r[1], orelse=w.orelse, type_comment=None), w)


def unnumbered(fn, f):
    """enumerate whose number nothing reads"""
    t, e = f.target, f.iter
    if (isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[0], ast.Name) and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "enumerate" and len(e.args) == 1
            and not any(isinstance(x, ast.Name) and x.id == t.elts[0].id and not isinstance(x.ctx, ast.Store) for x in ast.walk(fn))):
        return ast.copy_location(ast.For(target=t.elts[1], iter=e.args[0], body=f.body, orelse=f.orelse, type_comment=None), f)
    return f
