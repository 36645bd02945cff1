"""Mechanical instrumentation of the real source.

The modules of /repo/dissect/cstruct (and the contract modules) are loaded, on every run, from their current source with
these rewrites, and nothing else:
  f(args)                 -> __pv_call__(f, args)           (zero-argument super() is left alone)
  x in y, x not in y      -> __pv_in__(x, y) / not ...
  x is y, x is not y      -> __pv_is__(x, y) / not ...
  f(*a), [*a, b]          -> the starred operand is passed through __pv_star__
  f"..{x:spec}.."         -> __pv_fmt__(...)
  [e for t in it]         -> __pv_lc__(id, lambda t: e, it)  (one generator, no condition, no :=)
  (e for t in it)         -> __pv_ge__(id, lambda t: e, it)  (likewise, still lazy)
  while/for loops         -> + hooks at loop entry, and at the end of the body
  x.a = v, x[i] = v, del  -> the object written to is passed through __pv_store__ (frame conditions), likewise x += v
Every hook is the plain operation unless a symbolic value is involved or a loop contract is attached to that loop, so the
rewritten program is the program; nothing is dropped.  tests/selftest runs the repository's own behaviour through it.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

sys.dont_write_bytecode = True

READERS = {"get", "items", "keys", "values", "index", "count", "copy", "join", "startswith", "endswith"}  # methods (of builtin types) that change nothing


class Assigned(ast.NodeVisitor):
    """names assigned, and names of objects mutated through a method call or item assignment"""
    def __init__(self): self.names, self.mutated, self.attrs = set(), set(), set()
    def visit_Attribute(self, n):
        if not isinstance(n.ctx, ast.Load): self.attrs.add(n.attr)
        self.generic_visit(n)
    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr not in READERS: self.mutated.add(n.func.value.id)
        self.generic_visit(n)
    def visit_Subscript(self, n):
        if not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name): self.mutated.add(n.value.id)
        self.generic_visit(n)
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store): self.names.add(n.id)
    def visit_FunctionDef(self, n): self.names.add(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_ClassDef(self, n): self.names.add(n.name)


def name(i, ctx=None): return ast.Name(id=i, ctx=ctx or ast.Load())


def callh(h, *args): return ast.Call(func=name(h), args=list(args), keywords=[])


def const(v): return ast.Constant(value=v)


class Rewrite(ast.NodeTransformer):
    def __init__(self, target=True):
        self.target = target
        self.scope = []   # qualname parts
        self.loops = [0]
        self.lcs = [0]
        self.lfs = {}
        self.locals = [set()]

    # ---- scopes
    def _func(self, n):
        self.scope.append(n.name)
        self.loops.append(0)
        self.lcs.append(0)
        a = Assigned()
        for s in n.body: a.visit(s)
        outer = {x for s in ast.walk(n) if isinstance(s, (ast.Nonlocal, ast.Global)) for x in s.names}
        self.locals.append(a.names - outer)
        n.body = [self.visit(s) for s in n.body]
        n.body = flat(n.body)
        self.locals.pop()
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [d and self.visit(d) for d in n.args.kw_defaults]
        self.scope.pop()
        self.loops.pop()
        self.lcs.pop()
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        self.loops.append(0)
        self.lcs.append(0)
        n.body = flat([self.visit(s) for s in n.body])
        self.scope.pop()
        self.loops.pop()
        self.lcs.pop()
        return n

    # ---- stores
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if self.target and not isinstance(n.ctx, ast.Load): n.value = callh("__pv_store__", n.value, const(n.attr))
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if self.target and not isinstance(n.ctx, ast.Load): n.value = callh("__pv_store__", n.value, const("[]"))
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if self.target and isinstance(n.target, ast.Name) and self.scope:
            return [ast.copy_location(ast.Expr(callh("__pv_store__", name(n.target.id), const("+="))), n), n]
        return n

    def visit_Global(self, n):
        if not self.target: return n
        return [n, ast.copy_location(ast.Expr(callh("__pv_store__", const(None), const("global " + ", ".join(n.names)))), n)]

    def visit_AnnAssign(self, n):
        n.target = self.visit(n.target)
        if n.value is not None: n.value = self.visit(n.value)
        return n

    def qual(self): return ".".join(self.scope)

    # ---- expressions
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and (f.id in ("super", "locals", "globals") and not n.args or f.id.startswith("__pv_")):
            return n
        args = [ast.Starred(value=callh("__pv_star__", a.value), ctx=ast.Load()) if isinstance(a, ast.Starred) else a for a in n.args]
        return ast.copy_location(ast.Call(func=name("__pv_call__"), args=[f] + args, keywords=n.keywords), n)

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            elts = [ast.Starred(value=callh("__pv_star__", e.value), ctx=ast.Load()) if isinstance(e, ast.Starred) else e for e in n.elts]
            return ast.copy_location(callh("__pv_list__", ast.List(elts=elts, ctx=ast.Load())), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = callh("__pv_in__", n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn): r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            r = callh("__pv_is__", n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.IsNot): r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else const("")
                parts.append(ast.Tuple(elts=[val, const(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(callh("__pv_fmt__", *parts), n)

    def visit_GeneratorExp(self, n): return self.visit_ListComp(n, "__pv_ge__", "ge")

    def visit_ListComp(self, n, hook="__pv_lc__", tag="lc"):
        g = n.generators
        if len(g) == 1 and not g[0].ifs and not g[0].is_async and isinstance(g[0].target, ast.Name) and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)) and not uses_super(n) and (not self.scope or True):
            self.lcs[-1] += 1
            key = f"{self.qual()}:{tag}{self.lcs[-1]}"
            it = self.visit(g[0].iter)
            body = self.visit(n.elt)
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g[0].target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
            return ast.copy_location(callh(hook, const(key), lam, it), n)
        if hook == "__pv_lc__" and self.target and len(g) == 1 and len(g[0].ifs) == 1 and not g[0].is_async and isinstance(g[0].target, ast.Name) and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)) and not uses_super(n):
            self.lfs[self.qual()] = self.lfs.get(self.qual(), 0) + 1
            key = f"{self.qual()}:lf{self.lfs[self.qual()]}"
            arg = lambda: ast.arguments(posonlyargs=[], args=[ast.arg(arg=g[0].target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
            it, body, cond = self.visit(g[0].iter), self.visit(n.elt), self.visit(g[0].ifs[0])
            return ast.copy_location(callh("__pv_lf__", const(key), ast.Lambda(args=arg(), body=body), it, ast.Lambda(args=arg(), body=cond)), n)
        self.generic_visit(n)
        return n

    # ---- loops
    def _loop(self, n):
        self.loops[-1] += 1
        key = f"{self.qual()}:{self.loops[-1]}"
        a = Assigned()
        for s in n.body: a.visit(s)
        if isinstance(n, ast.For): a.visit(n.target)
        if isinstance(n, ast.While): a.visit(n.test)
        inner = self.generic_visit(n)
        vs = sorted(v for v in a.names | (a.mutated & self.locals[-1]) if not v.startswith("__pv"))
        meta = ast.Tuple(elts=[const(tuple(vs)), const(tuple(sorted(a.attrs))), const(tuple(sorted(a.names)))], ctx=ast.Load())
        end = lambda: ast.Expr(callh("__pv_end__", const(key), callh("locals")))
        n.body = Cont(end).body(n.body) + [end()]
        out = []
        if isinstance(n, ast.For):
            tmp = "__pv_it_" + str(self.loops[-1])
            out.append(ast.Assign(targets=[name(tmp, ast.Store())], value=n.iter))
            h = callh("__pv_loop__", const(key), callh("locals"), name(tmp), meta)
            n.iter = callh("__pv_iter__", const(key), name(tmp), name("__pv_h"))
        else:
            h = callh("__pv_loop__", const(key), callh("locals"), const(None), meta)
        out.append(ast.Assign(targets=[name("__pv_h", ast.Store())], value=h))
        asg = [ast.Assign(targets=[name(v, ast.Store())], value=ast.Subscript(value=name("__pv_h"), slice=const(v), ctx=ast.Load())) for v in vs]
        if asg:
            out.append(ast.If(test=ast.Compare(left=name("__pv_h"), ops=[ast.IsNot()], comparators=[const(None)]), body=asg, orelse=[]))
        out.append(n)
        for s in out: ast.copy_location(s, n); ast.fix_missing_locations(s)
        return out

    visit_For = visit_While = _loop


class Cont(ast.NodeTransformer):
    """continue of this loop -> end hook; continue"""
    def __init__(self, end): self.end = end
    def visit_Continue(self, n): return [self.end(), n]
    def visit_For(self, n): return n
    visit_While = visit_FunctionDef = visit_ClassDef = visit_Lambda = visit_For
    def body(self, b): return flat([self.visit(s) for s in b])


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list): out += x
        elif x is not None: out.append(x)
    return out


def uses_super(n):
    return any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(n))


def transform(src, filename, target=True):
    tree = ast.parse(src, filename)
    tree = Rewrite(target).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


PREFIXES = ("dissect.cstruct", "contracts", "pyv.ref", "pyv.real", "pyv.refexpr", "pyv.proofs")


class Loader(importlib.abc.Loader):
    def __init__(self, path, target): self.path, self.target = path, target
    def create_module(self, spec): return None
    def exec_module(self, module):
        src = open(self.path).read()
        code = compile(transform(src, self.path, self.target), self.path, "exec")
        from pyv import engine
        module.__dict__.update(engine.TARGET_HOOKS if self.target else engine.HOOKS)
        module.__file__ = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if not any(fullname == p or fullname.startswith(p + ".") for p in PREFIXES): return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"): return spec
        new = importlib.util.spec_from_file_location(fullname, spec.origin, loader=Loader(spec.origin, fullname.startswith("dissect.")), submodule_search_locations=spec.submodule_search_locations)
        return new


def install():
    assert not any(m == p or m.startswith(p + ".") for m in sys.modules for p in PREFIXES), "instrument before importing the code"
    sys.meta_path.insert(0, Finder())
