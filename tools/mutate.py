"""Systematic single-point changes to the package, to find behaviour no check looks at.

    python3 tools/mutate.py SRC OUT [--sample N] [--seed K] [--module SUBSTR] [--jobs J]

For every sampled change the checks that analysed the enclosing function on the unchanged tree (from evidence/*.json) are run,
fastest first, until one reports a violation.  One line per change goes to OUT: caught by which check, or survived."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}
FN = {"sin": "cos", "cos": "sin", "real": "imag", "imag": "real", "max": "min", "min": "max", "argmin": "argmax", "argmax": "argmin", "any": "all", "all": "any",
      "maximum": "minimum", "minimum": "maximum", "floor": "ceil", "ones_like": "zeros_like", "zeros_like": "ones_like", "log": "log10", "first_nonzero": "last_nonzero", "last_nonzero": "first_nonzero"}
DROP = {"abs", "conjugate", "conj", "sqrt", "cumsum", "flip", "sort", "unwrap", "nan_to_num"}


def sites(tree):
    """(function, node, description, apply) for every possible change"""
    out = []

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
            for d in n.body:
                if isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant):
                    continue
                walk(d, fn)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    walk(d, fn)
            return
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            out.append((fn, n, "op", lambda m: setattr(m, "op", SWAP[type(m.op)]())))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for c in CMP[type(n.ops[0])]:
                out.append((fn, n, "cmp", lambda m, c=c: setattr(m, "ops", [c()])))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            out.append((fn, n, "bool", lambda m: setattr(m, "op", ast.BitOr() if isinstance(m.op, ast.BitAnd) else ast.BitAnd())))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert)):
            out.append((fn, n, "unary", lambda m: setattr(m, "op", ast.UAdd())))
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, type(None), type(Ellipsis))):
            if isinstance(n.value, bool):
                out.append((fn, n, "flag", lambda m: setattr(m, "value", not m.value)))
            elif isinstance(n.value, int):
                out.append((fn, n, "int", lambda m: setattr(m, "value", m.value + 1)))
                out.append((fn, n, "int-", lambda m: setattr(m, "value", m.value - 1)))
            elif isinstance(n.value, float):
                out.append((fn, n, "float", lambda m: setattr(m, "value", m.value * 1.1 if m.value else 0.1)))
            elif isinstance(n.value, complex):
                out.append((fn, n, "imag", lambda m: setattr(m, "value", -m.value)))
        if isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            if name in FN:
                def f(m):
                    if isinstance(m.func, ast.Attribute):
                        m.func.attr = FN[m.func.attr]
                    else:
                        m.func.id = FN[m.func.id]
                out.append((fn, n, "fn", f))
            if name in DROP and len(n.args) == 1 and isinstance(n.func, ast.Attribute):
                def f(m):
                    a = m.args[0]
                    m.func, m.args, m.keywords = ast.Name("_id", ast.Load()), [a], []
                out.append((fn, n, "drop", f))
            if name == "where" and len(n.args) == 3:
                def f(m):
                    m.args = [m.args[0], m.args[2], m.args[1]]
                out.append((fn, n, "where", f))
            if len(n.args) >= 2 and name not in ("where", "partial", "add", "multiply", "isinstance", "range") and not isinstance(n.args[0], ast.Lambda) and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                def f(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                out.append((fn, n, "swapargs", f))
            for k, kw in enumerate(n.keywords):
                if kw.arg and kw.arg not in ("dtype",):
                    out.append((fn, n, "dropkw %s" % kw.arg, lambda m, k=k: m.keywords.pop(k)))
        if isinstance(n, ast.Attribute) and n.attr in ("real", "imag") and isinstance(n.ctx, ast.Load):
            out.append((fn, n, "attr", lambda m: setattr(m, "attr", "imag" if m.attr == "real" else "real")))
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    for s in tree.body:
        walk(s, "")
    return out


def main():
    src, out = sys.argv[1:3]
    opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    seen, wall = {}, {}
    for f in os.listdir(HERE + "/evidence"):
        if f.endswith(".json"):
            e = json.load(open(HERE + "/evidence/" + f))
            wall[e["property"]] = e["wall_s"]
            if e["property"] in ("P23", "P24", "P25"):
                continue
            for k in e["coverage"]["functions_analysed"]:
                seen.setdefault(k.split(".<locals>")[0].replace(":", "."), set()).add(e["property"])
    muts = []
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if not f.endswith(".py") or f == "__init__.py":
                continue
            p = os.path.join(d, f)
            if opt.get("--module", "") not in p or opt.get("--except") and opt["--except"] in p:
                continue
            text = open(p).read()
            n = len(sites(ast.parse(text)))
            muts += [(p, text, k) for k in range(n)]
    random.Random(int(opt.get("--seed", 1))).shuffle(muts)
    print(len(muts), "possible changes")
    muts = muts[:int(opt.get("--sample", len(muts)))]

    def one(a):
        p, text, k = a
        t = ast.parse(text)
        fn, node, what, act = sites(t)[k]
        line = node.lineno
        before = ast.unparse(node)
        act(node)
        after = ast.unparse(node)
        rel = os.path.relpath(p, src)
        mod = rel[:-3].replace("/", ".")
        tag = "%s:%d %s [%s] %s => %s" % (rel, line, fn, what, before[:90].replace("\n", " "), after[:90].replace("\n", " "))
        keys = {mod + "." + fn}
        while "." in fn:
            fn = fn.rsplit(".", 1)[0]
            keys.add(mod + "." + fn)
        props = set().union(*[v for s, v in seen.items() if any(s == x or s.startswith(x + ".") or x.startswith(s + ".") for x in keys)]) if seen else set()
        props = sorted(props, key=lambda x: wall.get(x, 1)) + ["P24", "P23"]
        w = tempfile.mkdtemp(prefix="mutate")
        try:
            shutil.copytree(src, w + "/src")
            ast.fix_missing_locations(t)
            q = os.path.join(w, "src", rel)
            open(q, "w").write("_id = lambda x: x\n" * ("_id" in after) + ast.unparse(t) + "\n" if "from __future__" not in text else ast.unparse(t) + "\n_id = lambda x: x\n")
            und = []
            for pr in props:
                r = subprocess.run(["nice", "timeout", "900", "python3-vt", "-W", "ignore", "-m", "sa.check", pr], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, MICROJAX_SRC=w + "/src"))
                if r.returncode == 1:
                    return "CAUGHT %s  %s" % (pr, tag)
                if r.returncode != 0 or "UNDECIDED" in r.stdout:
                    und.append("%s(%d)" % (pr, r.stdout.count("UNDECIDED")))
            return "SURVIVED %s und=%s  %s" % (",".join(props), ",".join(und), tag)
        finally:
            shutil.rmtree(w)
    with ThreadPoolExecutor(int(opt.get("--jobs", 7))) as ex, open(out, "a") as f:
        for r in ex.map(one, muts):
            f.write(r + "\n")
            f.flush()


if __name__ == "__main__":
    main()
