"""Source-level normal forms that keep the meaning: a loop for a self-call in tail position, a `for` for a loop that
takes the elements of a list one by one.  New nodes carry the positions of the code they stand for."""
import ast


def _copy(n):
    return ast.parse(ast.unparse(n), mode="eval").body if isinstance(n, ast.expr) else n


def at(new, old):
    ast.copy_location(new, old)
    ast.fix_missing_locations(new)
    return new


# ---------------------------------------------------------------- tail recursion
class _Refuse(Exception):
    pass


def _calls_self(n, is_self):
    return any(isinstance(x, ast.Call) and is_self(x) for x in ast.walk(n))


def tail_loop(fn, is_self, method):
    """fn (FunctionDef) calling itself only as `return fn(...)` -> the same function with a loop, or None."""
    if not isinstance(fn, ast.FunctionDef) or fn.args.vararg or fn.args.kwarg:
        return None
    if not _calls_self(ast.Module(fn.body, []), is_self):
        return None
    if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.FunctionDef, ast.Global, ast.Nonlocal))
           for s in fn.body for x in ast.walk(s)):
        return None
    pos = [a.arg for a in fn.args.posonlyargs + fn.args.args]
    kwo = [a.arg for a in fn.args.kwonlyargs]
    first = pos[0] if method and pos else None
    params = [p for p in pos + kwo if p != first]
    dflt = dict(zip(reversed(pos), reversed(fn.args.defaults)))
    dflt.update({a: d for a, d in zip(kwo, fn.args.kw_defaults) if d is not None})

    def again(call):
        names = [p for p in pos if p != first]
        if len(call.args) > len(names) or any(isinstance(a, ast.Starred) for a in call.args):
            raise _Refuse
        got = dict(zip(names, call.args))
        for k in call.keywords:
            if k.arg is None or k.arg not in params or k.arg in got:
                raise _Refuse
            got[k.arg] = k.value
        for p in params:
            if p not in got:
                if not isinstance(dflt.get(p), ast.Constant):
                    raise _Refuse
                got[p] = dflt[p]
        for v in got.values():
            if _calls_self(v, is_self):
                raise _Refuse
        got = [(p, v) for p, v in got.items() if not (isinstance(v, ast.Name) and v.id == p)]
        out = []
        if len(got) == 1:
            out.append(at(ast.Assign([ast.Name(got[0][0], ast.Store())], got[0][1]), call))
        elif got:
            out.append(at(ast.Assign([ast.Tuple([ast.Name(p, ast.Store()) for p, _ in got], ast.Store())],
                                     ast.Tuple([v for _, v in got], ast.Load())), call))
        return out

    def ret(v, node):
        """statements for `return v`"""
        if v is None or not _calls_self(v, is_self):
            return [node]
        if isinstance(v, ast.Call) and is_self(v):
            if any(_calls_self(a, is_self) for a in v.args + [k.value for k in v.keywords]):
                raise _Refuse
            return again(v) + [at(ast.Continue(), node)]
        if isinstance(v, ast.IfExp) and not _calls_self(v.test, is_self):
            return [at(ast.If(v.test, ret(v.body, at(ast.Return(v.body), node)),
                              ret(v.orelse, at(ast.Return(v.orelse), node))), node)]
        raise _Refuse

    def body(stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Return):
                out += ret(s.value, s)
            elif isinstance(s, ast.If):
                if _calls_self(s.test, is_self):
                    raise _Refuse
                out.append(at(ast.If(s.test, body(s.body), body(s.orelse)), s))
            elif _calls_self(s, is_self):
                raise _Refuse
            else:
                out.append(s)
        return out

    try:
        new = body(fn.body)
    except _Refuse:
        return None
    start = [s for s in new if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not start:
        return None
    test, tail, loop = at(ast.Constant(True), fn.body[0]), [], start
    f = start[0]
    if isinstance(f, ast.If) and not f.orelse and f.body and isinstance(f.body[-1], ast.Return) and not any(
            isinstance(x, ast.Continue) for s in f.body for x in ast.walk(s)):
        test = at(ast.UnaryOp(ast.Not(), f.test), f.test)
        tail, loop = f.body, start[1:]
    elif isinstance(f, ast.If) and len(start) == 2 and isinstance(start[1], ast.Return) and not f.orelse and \
            isinstance(f.body[-1], ast.Continue):
        test, tail, loop = f.test, [start[1]], f.body
    elif isinstance(f, ast.If) and len(start) == 1 and f.orelse:
        for a, b, neg in ((f.body, f.orelse, True), (f.orelse, f.body, False)):
            if isinstance(a[-1], ast.Return) and isinstance(b[-1], ast.Continue) and not any(
                    isinstance(x, ast.Continue) for s in a for x in ast.walk(s)):
                test = at(ast.UnaryOp(ast.Not(), f.test), f.test) if neg else f.test
                tail, loop = a, b
                break
    if isinstance(test, ast.UnaryOp) and isinstance(test.operand, ast.UnaryOp) and \
            isinstance(test.operand.op, ast.Not):
        test = test.operand.operand
    loop = list(loop)
    while loop and isinstance(loop[-1], ast.Continue):
        loop.pop()
        ended = True
    else:
        ended = bool(loop) and isinstance(loop[-1], (ast.Return, ast.Raise)) or not loop
    last = start[-1]
    if not isinstance(last, (ast.Continue, ast.Return, ast.Raise)) and last is not f:
        # the end may be reached: the call returns None there
        if not (isinstance(last, ast.If) and last.orelse and all(
                isinstance(b[-1], (ast.Continue, ast.Return, ast.Raise)) for b in (last.body, last.orelse))):
            loop.append(at(ast.Return(ast.Constant(None)), last))
    w = at(ast.While(test, loop or [at(ast.Pass(), fn.body[0])], []), start[0])
    nf = ast.FunctionDef(fn.name, fn.args, [w] + tail, [], fn.returns)
    if hasattr(fn, "type_params"):
        nf.type_params = []
    return at(nf, fn)


# ---------------------------------------------------------------- loops that consume a list
def _is_name(n, name):
    return isinstance(n, ast.Name) and n.id == name


def _const(n, v):
    return isinstance(n, ast.Constant) and n.value == v and type(n.value) is type(v)


def tested_list(t):
    """`Q`, `len(Q)`, `len(Q) > 0`, `len(Q) != 0`, `Q != []` -> Q"""
    if isinstance(t, ast.Name):
        return t.id
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("len", "bool") and \
            len(t.args) == 1 and isinstance(t.args[0], ast.Name) and not t.keywords:
        return t.args[0].id
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(l, ast.Call) and tested_list(l):
            if isinstance(op, (ast.Gt, ast.NotEq)) and _const(r, 0) or isinstance(op, ast.GtE) and _const(r, 1):
                return tested_list(l)
        if isinstance(l, ast.Name) and isinstance(op, ast.NotEq) and isinstance(r, ast.List) and not r.elts:
            return l.id
    return None


def _takes_last(n, q):
    """`Q.pop()` / `Q.pop(-1)`"""
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and _is_name(n.func.value, q) and \
        not n.keywords and n.func.attr == "pop" and (not n.args or len(n.args) == 1 and ast.unparse(n.args[0]) == "-1")


def _backwards(q):
    return ast.Subscript(ast.Name(q, ast.Load()), ast.Slice(None, None, ast.UnaryOp(ast.USub(), ast.Constant(1))),
                         ast.Load())


def _takes_first(s, q):
    """`v = Q.pop(0)` / `v = Q.popleft()` -> target"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and _is_name(c.func.value, q) and \
                not c.keywords and (c.func.attr == "pop" and len(c.args) == 1 and _const(c.args[0], 0) or
                                    c.func.attr == "popleft" and not c.args):
            return s.targets[0]
    return None


def _is_tail(n, q):
    return isinstance(n, ast.Subscript) and _is_name(n.value, q) and isinstance(n.slice, ast.Slice) and \
        _const(n.slice.lower, 1) and n.slice.upper is None and n.slice.step is None


def _is_first(n, q):
    return isinstance(n, ast.Subscript) and _is_name(n.value, q) and _const(n.slice, 0)


class _Sub(ast.NodeTransformer):
    def __init__(self, q, v):
        self.q, self.v, self.other = q, v, 0

    def visit_Subscript(self, n):
        if _is_first(n, self.q) and isinstance(n.ctx, ast.Load):
            return at(ast.Name(self.v, ast.Load()), n)
        return self.generic_visit(n)

    def visit_Name(self, n):
        if n.id == self.q:
            self.other += 1
        return n


def _next_of(c):
    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "next" and len(c.args) == 1 and \
            not c.keywords and isinstance(c.args[0], ast.Name):
        return c.args[0].id
    return None


def _iterating(s):
    """while True: try: x = next(it) / except StopIteration: break; …"""
    w = s.test
    if isinstance(w, ast.Compare) and isinstance(w.left, ast.NamedExpr) and isinstance(w.ops[0], ast.IsNot) and _const(
            w.comparators[0], None) and isinstance(w.left.value, ast.Call) and len(w.left.value.args) == 2 and _const(
            w.left.value.args[1], None):
        # while (x := next(it, None)) is not None
        c = w.left.value
        q = _next_of(at(ast.Call(c.func, c.args[:1], c.keywords), c))
        if q is None or any(_is_name(x, q) for b in s.body for x in ast.walk(b)):
            return None
        return q, "iter-none", at(ast.For(ast.Name(w.left.target.id, ast.Store()), ast.Name(q, ast.Load()), s.body, []), s)
    if not (isinstance(s.test, ast.Constant) and s.test.value) or not isinstance(s.body[0], ast.Try):
        return None
    t, rest = s.body[0], s.body[1:]
    if len(t.body) != 1 or t.finalbody or len(t.handlers) != 1 or not isinstance(t.body[0], ast.Assign) or \
            len(t.body[0].targets) != 1:
        return None
    q, h = _next_of(t.body[0].value), t.handlers[0]
    if q is None or not (isinstance(h.type, ast.Name) and h.type.id == "StopIteration") or len(h.body) != 1 or \
            not isinstance(h.body[0], ast.Break):
        return None
    body = t.orelse + rest
    if any(_is_name(x, q) for b in body for x in ast.walk(b)):
        return None
    return q, "iter", at(ast.For(t.body[0].targets[0], ast.Name(q, ast.Load()), body or [at(ast.Pass(), s)], []), s)


def _hoisted(b, q):
    """x = f(Q.pop(0))  as  v = Q.pop(0); x = f(v)  -> (v, the second statement)"""
    if not isinstance(b, (ast.Assign, ast.AugAssign, ast.Expr)):
        return None
    names = [x for x in ast.walk(b) if _is_name(x, q)]
    if len(names) != 1 or any(isinstance(x, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.comprehension, ast.NamedExpr,
                                             ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(b)):
        return None
    v = f"${q}0"

    class T(ast.NodeTransformer):
        done = 0

        def visit_Call(self, n):
            if _takes_first(at(ast.Assign([ast.Name("_", ast.Store())], n), b), q) is not None:
                T.done += 1
                return at(ast.Name(v, ast.Load()), n)
            return self.generic_visit(n)
    import copy
    new = T().visit(copy.deepcopy(b))
    return (v, new) if T.done == 1 else None


def consuming(s):
    """-> (Q, in place?, For node) for a while loop that takes the elements of Q one after the other."""
    if not isinstance(s, ast.While) or s.orelse:
        return None
    it = _iterating(s)
    if it is not None:
        return it
    q = tested_list(s.test)
    if q is None:
        return None
    body = list(s.body)

    def uses(stmts):
        return any(_is_name(x, q) for b in stmts for x in ast.walk(b))

    t = _takes_first(body[0], q)
    if t is not None and not uses(body[1:]):
        return q, True, at(ast.For(t, ast.Name(q, ast.Load()), body[1:] or [at(ast.Pass(), s)], []), s)
    if isinstance(body[0], ast.Assign) and len(body[0].targets) == 1 and _takes_last(body[0].value, q) and \
            not uses(body[1:]):
        return q, True, at(ast.For(body[0].targets[0], _backwards(q), body[1:] or [at(ast.Pass(), s)], []), s)
    h = _hoisted(body[0], q)
    if h is not None and not uses(body[1:]):
        v, first = h
        return q, True, at(ast.For(ast.Name(v, ast.Store()), ast.Name(q, ast.Load()), [first] + body[1:], []), s)
    b0 = body[0]
    if isinstance(b0, ast.Assign) and len(b0.targets) == 1 and isinstance(b0.targets[0], ast.Tuple):
        tt = b0.targets[0].elts
        if len(tt) == 2 and not uses(body[1:]):
            if isinstance(tt[1], ast.Starred) and _is_name(tt[1].value, q) and _is_name(b0.value, q) or \
                    _is_name(tt[1], q) and isinstance(b0.value, ast.Tuple) and len(b0.value.elts) == 2 and \
                    _is_first(b0.value.elts[0], q) and _is_tail(b0.value.elts[1], q):
                return q, False, at(ast.For(tt[0], ast.Name(q, ast.Load()), body[1:] or [at(ast.Pass(), s)], []), s)
    # Q = Q[1:] at the end, the rest only looks at Q[0]
    last = body[-1]
    new, ok = None, False
    if isinstance(last, ast.Assign) and len(last.targets) == 1:
        if _is_name(last.targets[0], q) and _is_tail(last.value, q):
            new, ok = [], True
        elif isinstance(last.targets[0], ast.Tuple) and isinstance(last.value, ast.Tuple) and \
                len(last.value.elts) == len(last.targets[0].elts):
            pairs = list(zip(last.targets[0].elts, last.value.elts))
            if sum(_is_name(a, q) and _is_tail(b, q) for a, b in pairs) == 1:
                rest = [(a, b) for a, b in pairs if not _is_name(a, q)]
                new, ok = [at(ast.Assign([ast.Tuple([a for a, _ in rest], ast.Store())],
                                         ast.Tuple([b for _, b in rest], ast.Load())), last)
                           if len(rest) > 1 else at(ast.Assign([rest[0][0]], rest[0][1]), last)], len(rest) > 0
    if isinstance(last, ast.Delete) and len(last.targets) == 1 and _is_first(last.targets[0], q):
        new, ok = [], True
    if isinstance(last, ast.Expr) and _takes_first(at(ast.Assign([ast.Name("_", ast.Store())], last.value), last),
                                                   q) is not None:
        new, ok = [], True
    if not ok:
        return None
    inplace = not (isinstance(last, ast.Assign))
    if any(isinstance(x, ast.Continue) for b in body for x in ast.walk(b)):
        return None     # would skip the step
    v = f"${q}0"
    sub = _Sub(q, v)
    stmts = [sub.visit(ast.parse(ast.unparse(b)).body[0]) for b in body[:-1] + new]
    if sub.other:
        return None
    for o, n in zip(body[:-1] + new, stmts):
        for x in ast.walk(n):
            if hasattr(x, "lineno"):
                x.lineno, x.end_lineno = o.lineno, o.end_lineno
    return q, inplace, at(ast.For(ast.Name(v, ast.Store()), ast.Name(q, ast.Load()),
                                  stmts or [at(ast.Pass(), s)], []), s)


def counts_up(fn):
    """(variable, step) of a generator that ends in  while True: yield x; x += step  and yields nothing before."""
    if not isinstance(fn, ast.FunctionDef) or not fn.body:
        return None
    w = fn.body[-1]
    if not (isinstance(w, ast.While) and isinstance(w.test, ast.Constant) and w.test.value and len(w.body) == 2):
        return None
    if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Return)) for b in fn.body[:-1] for x in ast.walk(b)):
        return None
    a, b = w.body
    if not (isinstance(a, ast.Expr) and isinstance(a.value, ast.Yield) and isinstance(a.value.value, ast.Name)):
        return None
    x = a.value.value.id
    if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name) and b.target.id == x:
        c = b.value
    elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and \
            b.targets[0].id == x and isinstance(b.value, ast.BinOp) and isinstance(b.value.op, ast.Add) and \
            isinstance(b.value.left, ast.Name) and b.value.left.id == x:
        c = b.value.right
    else:
        return None
    return (x, c.value) if isinstance(c, ast.Constant) and type(c.value) is int else None
