"""Mechanical instrumentation of the real source.

Every statement of the source file is kept; inside function bodies the operations that CPython
would perform with a C-level protocol that cannot carry a symbolic value (calls, `in`, `%`,
subscripts, f-strings, dict displays, comprehensions, loops) are routed through engine.rt, which
performs the very same Python operation when no symbolic value is involved.
"""
from __future__ import annotations

import ast

RT = "_vrt_"


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _rt(attr):
    return ast.Attribute(value=_name(RT), attr=attr, ctx=ast.Load())


def _call(attr, args, kw=None):
    return ast.Call(func=_rt(attr), args=args, keywords=kw or [])


def _lam(args, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[],
                                         kw_defaults=[], defaults=[]), body=body)


class _HasAwait(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_Await(self, n): self.found = True
    def visit_Yield(self, n): self.found = True
    def visit_YieldFrom(self, n): self.found = True
    def visit_NamedExpr(self, n): self.found = True

    def visit_comprehension(self, n):
        if n.is_async:
            self.found = True
        self.generic_visit(n)

    def visit_Lambda(self, n): pass


def has_await(n):
    v = _HasAwait()
    v.visit(n)
    return v.found


class _Assigned(ast.NodeVisitor):
    """names assigned in a loop body (own function scope only)"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n): self.add(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(self, n): self.add(n.name)
    def visit_Lambda(self, n): pass

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)

    def _comp(self, n):
        for g in n.generators:
            self.visit(g.iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return [n for n in v.names if not n.startswith(RT)]


MUTATORS = {"append", "extend", "insert", "add", "update", "pop", "clear", "setdefault", "remove", "discard", "popitem", "appendleft"}


class _Mutated(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if isinstance(n, ast.Name) and n.id not in self.names:
            self.names.append(n.id)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            self.add(n.func.value)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if not isinstance(n.ctx, ast.Load):
            self.add(n.value)
        self.generic_visit(n)


def mutated(stmts, locs, names):
    """containers held in locals of the function that the loop mutates in place"""
    v = _Mutated()
    for s in stmts:
        v.visit(s)
    return ["*" + n for n in v.names if n in locs and n not in names]


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    out |= set(assigned(fn.body))
    for s in ast.walk(fn):
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            out -= set(s.names)
    return out


class Transform(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.locs = [set()]
        self.qual = []
        self.infunc = 0
        self.loopno = []
        self.tmp = 0

    # ---- scopes
    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        saved, self.infunc = self.infunc, 0
        n.body = [self.visit(b) for b in n.body]
        self.infunc = saved
        self.qual.pop()
        return n

    def _func(self, n):
        self.qual.append(n.name)
        self.loopno.append(0)
        self.locs.append(local_names(n))
        outer = self.infunc
        self.infunc = 1
        args = n.args
        body = []
        for b in n.body:
            r = self.visit(b)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        n.body = body or [ast.Pass()]
        self.infunc = outer
        self.locs.pop()
        if outer:
            args.defaults = [self.visit(d) for d in args.defaults]
            args.kw_defaults = [self.visit(d) if d is not None else None for d in args.kw_defaults]
        self.loopno.pop()
        self.qual.pop()
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, n):
        if not self.infunc:
            return n
        n.body = self.visit(n.body)
        return n

    def visit_AnnAssign(self, n):
        if not self.infunc:
            return n
        if n.value is None:
            return n
        n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_arguments(self, n):
        return n

    def site(self):
        k = self.loopno[-1] if self.loopno else 0
        if self.loopno:
            self.loopno[-1] += 1
        return f"{self.module}:{'.'.join(self.qual)}#{k}"

    # ---- expressions
    def generic_visit(self, node):
        return super().generic_visit(node)

    def visit_Call(self, n):
        if not self.infunc:
            return n
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "locals", "globals", "vars", "eval", "exec"):
            return n
        func = self.visit(n.func)
        args = [self.visit(a) for a in n.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in n.keywords]
        kws = [ast.keyword(arg=None, value=_call("kw", [k.value])) if k.arg is None else k for k in kws]
        return ast.copy_location(ast.Call(func=_rt("call"), args=[func] + args, keywords=kws), n)

    def visit_Starred(self, n):
        if not self.infunc:
            return n
        n.value = self.visit(n.value)
        if isinstance(n.ctx, ast.Load):
            n.value = _call("star", [n.value])
        return n

    def visit_JoinedStr(self, n):
        if not self.infunc:
            return n
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value=None)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec],
                                       ctx=ast.Load()))
        return ast.copy_location(_call("fstr", parts), n)

    def visit_Compare(self, n):
        if not self.infunc:
            return n
        n.left = self.visit(n.left)
        n.comparators = [self.visit(c) for c in n.comparators]
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = "contains" if isinstance(n.ops[0], ast.In) else "notcontains"
            return ast.copy_location(_call(f, [n.left, n.comparators[0]]), n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            f = "is_" if isinstance(n.ops[0], ast.Is) else "isnot"
            return ast.copy_location(_call(f, [n.left, n.comparators[0]]), n)
        return n

    def visit_BinOp(self, n):
        if not self.infunc:
            return n
        n.left = self.visit(n.left)
        n.right = self.visit(n.right)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call("mod", [n.left, n.right]), n)
        return n

    def visit_Subscript(self, n):
        if not self.infunc:
            return n
        n.value = self.visit(n.value)
        n.slice = self.visit(n.slice)
        if isinstance(n.ctx, ast.Load):
            k = n.slice
            if isinstance(k, ast.Slice):
                none = ast.Constant(value=None)
                k = ast.Call(func=_rt("slice_"), args=[k.lower or none, k.upper or none, k.step or none], keywords=[])
            return ast.copy_location(_call("getitem", [n.value, k]), n)
        n.value = _call("ref", [n.value])
        return n

    def visit_Attribute(self, n):
        if not self.infunc:
            return n
        n.value = self.visit(n.value)
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            n.value = _call("wattr", [n.value, ast.Constant(value=n.attr)])
        return n

    def visit_Dict(self, n):
        if not self.infunc:
            return n
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append(ast.Tuple(elts=[self.visit(v)], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load()))
        return ast.copy_location(_call("mkdict", items), n)

    def visit_Set(self, n):
        if not self.infunc:
            return n
        return ast.copy_location(_call("mkset", [self.visit(e) for e in n.elts]), n)

    def visit_List(self, n):
        n = super().generic_visit(n)
        if self.infunc and isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            parts = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    parts.append(ast.Tuple(elts=[ast.Constant(value=True), e.value.args[0]], ctx=ast.Load()))
                else:
                    parts.append(ast.Tuple(elts=[ast.Constant(value=False), e], ctx=ast.Load()))
            return ast.copy_location(_call("mklist", parts), n)
        return n

    def _comp(self, n, kind):
        if not self.infunc:
            return n
        aw = has_await(n)
        for i, g in enumerate(n.generators):
            g.iter = self.visit(g.iter)
            g.ifs = [self._test(self.visit(c)) for c in g.ifs]
        if isinstance(n, ast.DictComp):
            n.key = self.visit(n.key)
            n.value = self.visit(n.value)
            n2 = ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        elif isinstance(n, ast.SetComp):
            n.elt = self.visit(n.elt)
            n2 = ast.ListComp(elt=n.elt, generators=n.generators)
        else:
            n.elt = self.visit(n.elt)
            n2 = n
        if aw:
            for g in n.generators:
                if not g.is_async:
                    g.iter = _call("it", [g.iter])
            return n
        it = n.generators[0].iter
        self.tmp += 1
        var = f"{RT}c{self.tmp}"
        n.generators[0].iter = _name(var)
        for g in n.generators[1:]:
            g.iter = _call("it", [g.iter])
        n2 = ast.copy_location(n2, n)
        one = len(n.generators) == 1 and not n.generators[0].ifs      # exactly one output per element
        return ast.copy_location(_call(kind, [it, _lam([var], n2), ast.Constant(value=one)]), n)

    def visit_ListComp(self, n): return self._comp(n, "listcomp")
    def visit_SetComp(self, n): return self._comp(n, "setcomp")
    def visit_DictComp(self, n): return self._comp(n, "dictcomp")
    def visit_GeneratorExp(self, n): return self._comp(n, "genexp")

    # ---- statements
    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _havoc(self, var, names):
        names = [n for n in names]
        hv = ast.Call(func=ast.Attribute(value=_name(var), attr="havoc", ctx=ast.Load()),
                      args=[ast.Constant(value=x) for x in names], keywords=[])
        st = ast.Assign(targets=[ast.Tuple(elts=[_name(x.lstrip("*"), ast.Store()) for x in names], ctx=ast.Store())],
                        value=hv) if names else ast.Expr(value=hv)
        return ast.If(test=ast.Attribute(value=_name(var), attr="cut", ctx=ast.Load()), body=[st], orelse=[])

    def _for(self, n, is_async):
        if not self.infunc:
            return n
        site = self.site()
        self.tmp += 1
        var = f"{RT}l{self.tmp}"
        names = assigned([ast.Assign(targets=[n.target], value=ast.Constant(value=0))] + n.body)
        names += mutated(n.body, self.locs[-1], names)
        it = self.visit(n.iter)
        n.target = self.visit(n.target)
        n.body = self._body(n.body)
        n.orelse = self._body(n.orelse)
        setup = ast.Assign(targets=[_name(var, ast.Store())],
                           value=_call("aloop" if is_async else "loop", [ast.Constant(value=site), it]))
        n.iter = _name(var)
        out = [ast.copy_location(setup, n)]
        out.append(ast.copy_location(self._havoc(var, names), n))
        out.append(n)
        out.append(ast.copy_location(ast.Expr(value=ast.Call(
            func=ast.Attribute(value=_name(var), attr="leave", ctx=ast.Load()), args=[], keywords=[])), n))
        for s in out:
            ast.fix_missing_locations(s)
        return out

    def visit_For(self, n): return self._for(n, False)
    def visit_AsyncFor(self, n): return self._for(n, True)

    def _test(self, n):
        """an already visited expression in truth position"""
        if isinstance(n, ast.BoolOp):
            n.values = [self._test(v) for v in n.values]
            return n
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return n                                      # its operand is wrapped already
        if isinstance(n, (ast.Compare, ast.Constant)):
            return n
        return ast.copy_location(_call("truth_of", [n]), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and self.infunc:
            n.operand = self._test(n.operand)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.infunc:
            n.test = self._test(n.test)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if self.infunc:
            n.test = self._test(n.test)
        return n

    def visit_While(self, n):
        if not self.infunc:
            return n
        site = self.site()
        self.tmp += 1
        var = f"{RT}l{self.tmp}"
        names = assigned(n.body)
        names += mutated(n.body, self.locs[-1], names)
        test = self._test(self.visit(n.test))
        n.body = self._body(n.body)
        n.orelse = self._body(n.orelse)
        setup = ast.Assign(targets=[_name(var, ast.Store())],
                           value=_call("wloop", [ast.Constant(value=site)]))
        n.test = ast.BoolOp(op=ast.And(), values=[
            ast.Call(func=ast.Attribute(value=_name(var), attr="step", ctx=ast.Load()), args=[], keywords=[]), test])
        out = [ast.copy_location(setup, n)]
        out.append(ast.copy_location(self._havoc(var, names), n))
        out.append(n)
        out.append(ast.copy_location(ast.Expr(value=ast.Call(
            func=ast.Attribute(value=_name(var), attr="leave", ctx=ast.Load()), args=[], keywords=[])), n))
        for s in out:
            ast.fix_missing_locations(s)
        return out

    def _chk(self, at):
        return ast.copy_location(ast.Expr(value=_call("chk", [])), at)

    def visit_Try(self, n):
        if not self.infunc:
            return n
        n.body = self._body(n.body)
        n.orelse = self._body(n.orelse)
        if n.finalbody:
            n.finalbody = [self._chk(n.finalbody[0])] + self._body(n.finalbody)
        for h in n.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = [self._chk(h.body[0])] + self._body(h.body)
        return n


def instrument(source: str, filename: str, module: str):
    tree = ast.parse(source, filename)
    tree = Transform(module).visit(tree)
    # bind the runtime after any `from __future__` import / docstring
    pos = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, ast.ImportFrom) and s.module == "__future__":
            pos = i + 1
        elif i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
            pos = max(pos, 1)
    imp = ast.ImportFrom(module="engine", names=[ast.alias(name="rt", asname=RT)], level=0)
    tree.body.insert(pos, imp)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
