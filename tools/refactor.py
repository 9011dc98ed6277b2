"""Behaviour-preserving rewrites of the whole package, to test that the checks stay quiet.

    python3 tools/refactor.py RULE SRC DST      copies SRC to DST with RULE applied to every module
    python3 tools/refactor.py --list
"""
import ast
import copy
import os
import shutil
import sys
import warnings

warnings.simplefilter("ignore")


class Fns(ast.NodeTransformer):
    """visit functions innermost last"""


def pure(e):
    """a side-effect free expression whose evaluation order does not matter"""
    return not any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)) for n in ast.walk(e))


class Commute(ast.NodeTransformer):
    """a + b -> b + a and a * b -> b * a where neither side is a sequence"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        seq = (ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp)
        if isinstance(n.op, (ast.Add, ast.Mult)) and not isinstance(n.left, seq) and not isinstance(n.right, seq) and not any(
                isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)) and "shape" not in ast.unparse(n):
            n.left, n.right = n.right, n.left
        return n


class Square(ast.NodeTransformer):
    """x ** 2 -> x * x for names"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.0) and isinstance(n.left, ast.Name):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n


class SwapIf(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class WhereSwap(ast.NodeTransformer):
    """jnp.where(c, a, b) -> jnp.where(jnp.logical_not(c), b, a)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "where" and len(n.args) == 3 and not n.keywords:
            c = ast.Call(ast.Attribute(copy.deepcopy(n.func.value), "logical_not", ast.Load()), [n.args[0]], [])
            n.args = [c, n.args[2], n.args[1]]
        return n


class ReturnTemp(ast.NodeTransformer):
    """return E -> result_ = E; return result_"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, ast.Name):
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value, lineno=n.lineno), ast.Return(ast.Name("result_", ast.Load()))]


class AugPlain(ast.NodeTransformer):
    """x += e -> x = x + e for names that hold numbers or immutable arrays (not NumPy in-place code)"""

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value), lineno=n.lineno)
        return n


class LambdaDef(ast.NodeTransformer):
    """f = lambda x: e -> def f(x): return e"""

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Lambda):
            return ast.FunctionDef(n.targets[0].id, n.value.args, [ast.Return(n.value.body)], [], lineno=n.lineno, type_params=[])
        return n


class ForWhile(ast.NodeTransformer):
    """for i in range(n): B -> i_ = 0; while i_ < n: i = i_; B; i_ += 1   (no continue in B)"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 and not n.orelse
                and isinstance(n.target, ast.Name) and not any(isinstance(x, ast.Continue) for x in ast.walk(n))):
            ForWhile.k += 1
            v, m = "count_%d" % ForWhile.k, "stop_%d" % ForWhile.k
            ld, st = lambda i: ast.Name(i, ast.Load()), lambda i: ast.Name(i, ast.Store())
            return [ast.Assign([st(v)], ast.Constant(0), lineno=0), ast.Assign([st(m)], n.iter.args[0], lineno=0),
                    ast.While(ast.Compare(ld(v), [ast.Lt()], [ld(m)]),
                              [ast.Assign([n.target], ld(v), lineno=0)] + n.body + [ast.Assign([st(v)], ast.BinOp(ld(v), ast.Add(), ast.Constant(1)), lineno=0)], [])]
        return n


class Rename(ast.NodeTransformer):
    """rename every local that is only assigned inside one function (not captured, not a parameter)"""

    def visit_FunctionDef(self, n):
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        inner = [x for x in ast.walk(n) if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp))]
        used = {y.id for x in inner for y in ast.walk(x) if isinstance(y, ast.Name)}
        local = {y.id for y in ast.walk(n) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} - params - used
        glob = {g for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
        local -= glob | {x.name for x in inner if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
        if not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("locals", "vars", "eval") for y in ast.walk(n)):
            for y in ast.walk(n):
                if isinstance(y, ast.Name) and y.id in local:
                    y.id = y.id + "_v"
        self.generic_visit(n)
        return n


class Keyword(ast.NodeTransformer):
    """positional arguments of calls to functions of the same module -> keywords"""

    def visit_Module(self, n):
        self.sig = {}
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and not f.args.vararg and not f.args.posonlyargs and not f.decorator_list:
                self.sig[f.name] = [x.arg for x in f.args.args]
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.sig and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            ps = self.sig[n.func.id]
            n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
            n.args = []
        return n


class Extract(ast.NodeTransformer):
    """pull the arithmetic right-hand side of each assignment in a function into a helper defined just before"""
    k = 0

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        out = []
        for s in n.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and pure(s.value) and all(isinstance(t, ast.Name) for t in s.targets):
                Extract.k += 1
                f = "part_%d" % Extract.k
                names = []
                bound = {c.arg for x in ast.walk(s.value) if isinstance(x, ast.Lambda) for c in x.args.args}
                for x in ast.walk(s.value):
                    if isinstance(x, ast.Name) and x.id not in names and x.id not in MODULES and x.id not in bound:
                        names.append(x.id)
                if any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) for x in ast.walk(s.value)):
                    out.append(s)
                    continue
                g = ast.FunctionDef(f, ast.arguments([], [ast.arg(v) for v in names], None, [], [], None, []), [ast.Return(s.value)], [], lineno=0, type_params=[])
                TOP.append(g)
                s = ast.Assign(s.targets, ast.Call(ast.Name(f, ast.Load()), [ast.Name(v, ast.Load()) for v in names], []), lineno=0)
            out.append(s)
        n.body = out
        return n


MODULES = {"jnp", "np", "jax", "lax", "math", "scipy"}
TOP = []


class Closure(ast.NodeTransformer):
    """wrap the body of every function in a nested function called at once"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.Yield, ast.Nonlocal, ast.Global)) for x in ast.walk(n)) or n.name.startswith("__"):
            return n
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        own = {y.id for s in n.body for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del))}
        if params & own:
            return n
        doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        body = n.body[len(doc):]
        n.body = doc + [ast.FunctionDef("inner_", ast.arguments([], [], None, [], [], None, []), body or [ast.Pass()], [], lineno=0, type_params=[]),
                        ast.Return(ast.Call(ast.Name("inner_", ast.Load()), [], []))]
        return n


class Temps(ast.NodeTransformer):
    """name every call argument that is itself arithmetic: f(a + b) -> t = a + b; f(t) in plain assignments"""
    k = 0

    def visit_Assign(self, s):
        out = []
        if isinstance(s.value, ast.Call) and pure(s.value) and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp)) for x in ast.walk(s.value)):
            for i, a in enumerate(s.value.args):
                if isinstance(a, (ast.BinOp, ast.Call)):
                    Temps.k += 1
                    v = "tmp_%d" % Temps.k
                    out.append(ast.Assign([ast.Name(v, ast.Store())], a, lineno=0))
                    s.value.args[i] = ast.Name(v, ast.Load())
        return out + [s]


class Flip(ast.NodeTransformer):
    """a < b -> b > a"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in sw and not isinstance(n.comparators[0], (ast.Tuple, ast.List)):
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        return n


class DivMul(ast.NodeTransformer):
    """a - b -> a + (-b) when the right side is not a constant"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub) and not isinstance(n.right, ast.Constant):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n


class AttrFn(ast.NodeTransformer):
    """x.sum(...) -> jnp.sum(x, ...) for array reductions and conversions on names"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("sum", "max", "min", "any", "all", "reshape", "mean") and isinstance(n.func.value, ast.Name) and n.func.value.id not in MODULES and \
                n.func.value.id not in ("self",) and self.lib:
            return ast.Call(ast.Attribute(ast.Name(self.lib, ast.Load()), n.func.attr, ast.Load()), [n.func.value] + ([ast.Tuple(n.args, ast.Load())] if n.func.attr == "reshape" and len(n.args) > 1 else n.args), n.keywords)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in ("real", "imag") and isinstance(n.ctx, ast.Load) and self.lib and not (isinstance(n.value, ast.Name) and n.value.id in MODULES):
            return ast.Call(ast.Attribute(ast.Name(self.lib, ast.Load()), n.attr, ast.Load()), [n.value], [])
        return n

    def visit_Module(self, n):
        t = ast.unparse(n)
        self.lib = "jnp" if "import jax.numpy as jnp" in t else "np" if "import numpy as np" in t else None
        self.generic_visit(n)
        return n


class Noop(ast.NodeTransformer):
    """statements that do nothing"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        n.body = doc + [ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None), lineno=0), ast.Pass()] + n.body[len(doc):]
        return n


class Imports(ast.NodeTransformer):
    """jnp.f -> a module-level alias f_jnp"""

    def visit_Module(self, n):
        self.seen = set()
        self.generic_visit(n)
        k = max([i for i, s in enumerate(n.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [-1]) + 1
        n.body[k:k] = [ast.Assign([ast.Name("np_" + a, ast.Store())], ast.Attribute(ast.Name("jnp", ast.Load()), a, ast.Load()), lineno=0) for a in sorted(self.seen)]
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "jnp":
            self.seen.add(f.attr)
            n.func = ast.Name("np_" + f.attr, ast.Load())
        return n


class VmapScan(ast.NodeTransformer):
    """lax.map(f, xs) -> lax.scan(lambda _, x: (None, f(x)), None, xs)[1]"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "map" and isinstance(n.func.value, ast.Name) and n.func.value.id == "lax" and len(n.args) == 2:
            lam = ast.Lambda(ast.arguments([], [ast.arg("_c"), ast.arg("_x")], None, [], [], None, []),
                             ast.Tuple([ast.Constant(None), ast.Call(n.args[0], [ast.Name("_x", ast.Load())], [])], ast.Load()))
            c = ast.Call(ast.Attribute(ast.Name("lax", ast.Load()), "scan", ast.Load()), [lam, ast.Constant(None), n.args[1]], [])
            return ast.Subscript(c, ast.Constant(1), ast.Load())
        return n


class Wrap(ast.NodeTransformer):
    """every private module function gets a new name behind a thin wrapper"""

    def visit_Module(self, n):
        out = []
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and f.name.startswith("_") and not f.decorator_list and not f.args.posonlyargs:
                g = copy.deepcopy(f)
                g.name = f.name + "_impl"
                a = f.args
                call = ast.Call(ast.Name(g.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()))] if a.vararg else []),
                                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                out += [g, ast.FunctionDef(f.name, a, [ast.Return(call)], [], lineno=0, type_params=[])]
            else:
                out.append(f)
        n.body = out
        return n


class RenamePrivate(ast.NodeTransformer):
    """private module functions get new names everywhere in the package"""
    names = set()

    def name(self, v):
        return v + "_renamed" if v in RenamePrivate.names else v

    def visit_Name(self, n):
        n.id = self.name(n.id)
        return n

    def visit_FunctionDef(self, n):
        n.name = self.name(n.name)
        self.generic_visit(n)
        return n

    def visit_alias(self, n):
        n.name = self.name(n.name)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, str) and n.value in RenamePrivate.names:
            n.value = self.name(n.value)
        return n


class Partial(ast.NodeTransformer):
    """@partial(jit, ...) def f -> def f; f = jit(f, ...)"""

    def visit_Module(self, n):
        out = []
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and len(f.decorator_list) == 1:
                d = f.decorator_list[0]
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "partial":
                    g = copy.deepcopy(f)
                    g.decorator_list = []
                    out += [g, ast.Assign([ast.Name(f.name, ast.Store())], ast.Call(d.args[0], [ast.Name(f.name, ast.Load())] + d.args[1:], d.keywords), lineno=0)]
                    continue
                if isinstance(d, ast.Name) and d.id == "jit":
                    g = copy.deepcopy(f)
                    g.decorator_list = []
                    out += [g, ast.Assign([ast.Name(f.name, ast.Store())], ast.Call(d, [ast.Name(f.name, ast.Load())], []), lineno=0)]
                    continue
            out.append(f)
        n.body = out
        return n


RULES = dict(commute=Commute, square=Square, swapif=SwapIf, whereswap=WhereSwap, returntemp=ReturnTemp, augplain=AugPlain, lambdadef=LambdaDef, forwhile=ForWhile, rename=Rename, keyword=Keyword,
             extract=Extract, closure=Closure, temps=Temps, flip=Flip, subadd=DivMul, attrfn=AttrFn, noop=Noop, imports=Imports, mapscan=VmapScan, wrap=Wrap, renameprivate=RenamePrivate, partial=Partial)


def main():
    if sys.argv[1] == "--list":
        print(" ".join(RULES))
        return
    rule, src, dst = sys.argv[1:4]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    files = [os.path.join(d, f) for d, _, fs in os.walk(dst) for f in fs if f.endswith(".py")]
    trees = {p: ast.parse(open(p).read()) for p in files}
    if "renameprivate" in rule:
        RenamePrivate.names = {f.name for t in trees.values() for f in t.body if isinstance(f, ast.FunctionDef) and f.name.startswith("_")}
    changed = 0
    for p in files:
        t = trees[p]
        before = ast.unparse(t)
        for r in rule.split("+"):
            TOP.clear()
            t = RULES[r]().visit(t)
            if TOP:
                k = max([i for i, s in enumerate(t.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [-1]) + 1
                t.body[k:k] = list(TOP)
            ast.fix_missing_locations(t)
        after = ast.unparse(t)
        if after != before:
            changed += 1
            compile(after, p, "exec")
            open(p, "w").write(after + "\n")
    print("%s: %d modules changed" % (rule, changed))


if __name__ == "__main__":
    main()
