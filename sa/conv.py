"""Precision lint: every mention of a type narrower than double precision in a module, by use.

`uses(pkg)` yields (module, line, owner, text) for each narrow floating or complex type that is used to build or convert
data, and for each switch that lowers the working precision of the library."""
import ast

NARROW = {"float16", "bfloat16", "float32", "complex64", "half", "single", "csingle", "singlecomplex", "float8_e4m3fn", "float8_e5m2", "longfloat32"}
CODES = {"f2", "f4", "<f4", ">f4", "<f2", ">f2", "=f4", "c8", "<c8", ">c8", "=c8", "e", "f", "F"} | NARROW
# asking about a type does not convert anything
QUERY = {"result_type", "promote_types", "finfo", "iinfo", "issubdtype", "can_cast", "isinstance", "issubclass", "isdtype"}
DTYPE_FNS = {"array", "asarray", "zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like", "empty_like", "arange", "linspace", "eye", "astype", "dtype",
             "asanyarray", "ascontiguousarray", "fromfunction", "identity", "tri", "logspace", "geomspace", "view", "convert_element_type", "sum", "prod", "cumsum", "cumprod",
             "mean", "einsum", "matmul", "dot", "tensordot", "vander", "trapezoid", "stack", "concatenate", "full", "uniform", "normal", "result_type", "canonicalize_dtype", "bitcast_convert_type"}


def owner(pkg, m, node):
    best = None
    for f in pkg.fns.values():
        if f.mod is m and f.node.lineno <= node.lineno <= f.node.end_lineno and (best is None or f.node.lineno >= best.node.lineno):
            best = f
    return best.qual if best else "module body"


def uses(pkg):
    n = 0
    out = []
    for m in pkg.mods.values():
        parent = {}
        for a in ast.walk(m.tree):
            for c in ast.iter_child_nodes(a):
                parent[c] = a

        alias = {}
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                alias.setdefault(s.targets[0].id, []).append(s.value)

        def called(f):
            """last part of the name of a called function, module level aliases followed"""
            for _ in range(4):
                if isinstance(f, ast.Name) and len(alias.get(f.id, ())) == 1:
                    f = alias[f.id][0]
                elif isinstance(f, ast.Name) and f.id in m.imports:
                    return m.imports[f.id].split(".")[-1]
                else:
                    break
            return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""

        def passed(e):
            """how the value of this expression is used: 'query', 'compare' or 'use'"""
            p = parent.get(e)
            while isinstance(p, (ast.Tuple, ast.List, ast.Set)):
                e, p = p, parent.get(p)
            if isinstance(p, ast.keyword):
                e, p = p, parent.get(p)
            if isinstance(p, ast.Compare):
                return "compare"
            if isinstance(p, ast.Call) and e is not p.func:
                name = called(p.func)
                if name == "dtype":
                    return passed(p)
                if name in QUERY:
                    return "query"
            return "use"

        for e in ast.walk(m.tree):
            if isinstance(e, (ast.Attribute, ast.Name)) and isinstance(getattr(e, "ctx", None), ast.Load):
                n += 1
                d = pkg.dotted(m, None, e)
                last = e.attr if isinstance(e, ast.Attribute) else e.id
                if d is not None and d.split(".")[-1] in NARROW and d.split(".")[0] in ("numpy", "jax", "ml_dtypes"):
                    if passed(e) == "use":
                        out.append((m, e.lineno, owner(pkg, m, e), "%s fixes a type narrower than double precision" % ast.unparse(e)))
            elif isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value in CODES:
                p = parent.get(e)
                kw = isinstance(p, ast.keyword) and p.arg in ("dtype", "preferred_element_type")
                call = parent.get(p) if isinstance(p, ast.keyword) else p
                fname = None
                if isinstance(call, ast.Call):
                    fname = called(call.func)
                if kw or isinstance(p, ast.Call) and p.func is not e and fname in DTYPE_FNS and not (fname == "einsum"):
                    if passed(e) == "use":
                        out.append((m, e.lineno, owner(pkg, m, e), "type %r is narrower than double precision" % e.value))
                elif isinstance(p, ast.Call) and fname == "getattr":
                    out.append((m, e.lineno, owner(pkg, m, e), "type %r is narrower than double precision" % e.value))
            elif isinstance(e, ast.Call):
                n += 1
                t = [a.value for a in e.args if isinstance(a, ast.Constant)]
                if "jax_enable_x64" in t and False in t or "jax_default_dtype_bits" in t or "jax_default_matmul_precision" in t and ("bfloat16" in t or "default" in t):
                    out.append((m, e.lineno, owner(pkg, m, e), "%s lowers the working precision" % ast.unparse(e)))
                for k in e.keywords:
                    if k.arg == "precision" and isinstance(k.value, ast.Constant) and k.value.value in ("bfloat16", "default", "fastest", "tensorfloat32"):
                        out.append((m, e.lineno, owner(pkg, m, e), "%s lowers the working precision" % ast.unparse(e)[:60]))
                d = pkg.dotted(m, None, e.func)
                if d and d.split(".")[-1] == "disable_x64":
                    out.append((m, e.lineno, owner(pkg, m, e), "%s lowers the working precision" % ast.unparse(e)[:60]))
    return out, n
