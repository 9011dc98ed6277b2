"""P24: results are a pure function of the arguments (alias and effect analysis of the whole package)."""
import os
import warnings

from .common import *
from sa import effects

FLOOR = 250

HEAD = "import numpy as np\nimport jax, time, os, random\nimport jax.numpy as jnp\nfrom functools import partial\n"

# one positive and one clean example per rule: (rule or None, module text)
EXAMPLES = [
    ("module data", "C = {}\ndef f(x):\n    k = x.shape\n    if k not in C:\n        C[k] = x\n    return C[k]\n"),
    ("module data", "N = 0\ndef f(x):\n    global N\n    N += 1\n    return x * N\n"),
    ("module data", "L = []\ndef g(a):\n    a.append(1)\ndef f(x):\n    g(L)\n    return x\n"),
    ("module data", "class K:\n    memo = {}\n    def A(self, x):\n        self.memo[x] = 1\n        return x\n"),
    ("module data", "def f(x):\n    f.last = x\n    return x\n"),
    ("module data", "T = np.zeros(4)\ndef f(x):\n    y = T\n    y += x\n    return y\n"),
    ("module data", "def f(x):\n    np.seterr(all='ignore')\n    return x\n"),
    ("default argument", "def f(x, acc=[]):\n    acc.append(x)\n    return acc\n"),
    ("default argument", "def f(x, opts={}):\n    o = opts\n    o.setdefault('k', x)\n    return o['k']\n"),
    ("caller's data", "def f(params):\n    return params.pop('rho')\n"),
    ("caller's data", "def f(u):\n    u = np.atleast_1d(u)\n    u[u < 1] = 1\n    return u\n"),
    ("caller's data", "def _g(a, s):\n    a /= s\n    return a\ndef f(u, rho):\n    return _g(np.asarray(u), rho)\n"),
    ("caller's data", "class K:\n    def __init__(self, x):\n        self.x = x\n        self.x[0] = 1.0\n"),
    ("caller's data", "def f(u):\n    np.clip(u, 0, 1, out=u)\n    return u\n"),
    ("state", "class K:\n    def __init__(self):\n        self.r = None\n    def A(self, x):\n        self.r = x\n        return x\n"),
    ("state", "def memo(fn):\n    last = {}\n    def w(x):\n        if 'v' not in last:\n            last['v'] = fn(x)\n        return last['v']\n    return w\n@memo\ndef f(x):\n    return x\n"),
    ("clock", "def f(x):\n    return x + time.time()\n"),
    ("environment", "def f(x):\n    return x * float(os.environ.get('K', '1'))\n"),
    ("file", "def f(x):\n    return x + np.load('t.npy')\n"),
    ("random state", "def f(x):\n    return x + np.random.normal()\n"),
    ("random state", "def f(x):\n    return x + random.random()\n"),
    ("random seed", "def f(x):\n    return x + jax.random.normal(jax.random.PRNGKey(int(x[0])), x.shape)\n"),
    ("random seed", "def f(x):\n    return x + np.random.default_rng().normal()\n"),
    ("object identity", "def f(x):\n    return x if id(x) % 2 else -x\n"),
    (None, "T = np.zeros(4)\ndef f(x):\n    y = T + x\n    y += 1\n    return y\n"),
    (None, "def f(u):\n    u = np.array(u)\n    u[u < 1] = 1\n    u -= 3\n    return jnp.sort(u)\n"),
    (None, "def f(x):\n    out = []\n    for k in range(3):\n        out.append(x * k)\n    d = {}\n    d['k'] = out\n    return d\n"),
    (None, "def f(x):\n    return x.at[0].set(1.0).at[1].add(2.0)\n"),
    (None, "def f(x, **kw):\n    n = kw.pop('n', 3)\n    return x * n\n"),
    (None, "def f(x, n=10, tol: float = 0.1):\n    n += 1\n    tol *= 2\n    return x * n * tol\n"),
    (None, "@jax.jit\ndef f(w):\n    w -= 1\n    return w\n"),
    (None, "class K:\n    def __init__(self, x):\n        self.x = np.array(x)\n        self.x[0] = 1\n        self._set()\n    def _set(self):\n        self.y = self.x * 2\n    def A(self, u):\n        return u * self.y\n"),
    (None, "def f(x):\n    t = []\n    def g(y):\n        t.append(y)\n        return y\n    g(x)\n    return t\n"),
    (None, "def f(x):\n    key = jax.random.PRNGKey(0)\n    k, s = jax.random.split(key)\n    return x + jax.random.uniform(s, x.shape)\n"),
    (None, "def f(x, seed=7):\n    return x + np.random.default_rng(seed).normal(size=x.shape)\n"),
    (None, "def f(p):\n    q = dict(p)\n    q['k'] = 1\n    q.update(a=2)\n    return q\n"),
    (None, "def f(p):\n    a, b = p\n    a = a + 1\n    a += b\n    return a\n"),
]


def demo(text):
    return effects.Package({"ex": ("ex.py", HEAD + text)}, "ex").run()


def run(ctx):
    ctx.rule("alias and effect analysis of every function: the object behind every in-place modification (item, attribute or augmented assignment, mutating method, out=, deletion) is traced through assignments, views, calls and closures; it must be created by the call itself (or by the constructor, for attributes of an object)")
    ctx.rule("every name resolving to a clock, environment, file or global-random-state source is reported; every random key or generator must be seeded by a constant or by an argument")
    ctx.assumptions += ["objects handed to libraries outside the package are not modified by them (except through out= and the listed in-place NumPy routines)",
                        "methods of objects of unknown class modify their receiver exactly when they carry the name of a mutating method of list, dict, set, deque or ndarray",
                        "inside a jitted function arguments are immutable tracers"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with ctx.case("the analysis recognises its positive examples and accepts the clean ones"):
            for rule, text in EXAMPLES:
                got = {f.rule for f in demo(text)}
                if rule is not None and rule not in got or rule is None and got:
                    raise M.Unsupported("self test: example of %r yields %s:\n%s" % (rule, got, text))
                ctx.n += 1
        root = os.environ.get("MICROJAX_SRC") or "/repo/src"
        pkg = effects.Package(effects.load(root), "microjax", set(open(os.path.join(os.path.dirname(effects.__file__), "api.txt")).read().split()))
        found = pkg.run()
    ctx.extra = dict(functions=len(pkg.fns), modules=len(pkg.mods), jitted=len(pkg.jitted), **pkg.notes)
    for f in pkg.fns.values():
        ctx.it.visited["%s:%s" % (f.mod.name, f.qual)] = 1
    ctx.it.calls = pkg.notes["calls"]
    for m in sorted(pkg.mods.values(), key=lambda m: m.name):
        mine = [f for f in found if f.where == m.path or f.where.startswith(m.path + " in ")]
        fns = [f for f in pkg.fns.values() if f.mod is m]
        if not fns and not mine:
            continue
        hits = {}
        for x in mine:
            hits.setdefault((x.where, x.rule), x)
        for (where, rule), x in sorted(hits.items(), key=lambda t: (t[0][0], t[1].line)):
            name = where.split(" in ")[-1] if " in " in where else "module body"
            with ctx.case("%s of %s: %s" % (name, m.name, rule), "%s:%s" % (m.name, name)):
                ctx.fact(x.text, False, x.rule, (m.path, x.line, name))
        with ctx.case("%s: no hidden inputs, no state, no writes to foreign objects" % m.name, m.name):
            bad = {w for (w, r) in hits}
            for f in fns:
                if "%s in %s" % (m.path, f.qual) not in bad:
                    ctx.fact("%s is pure" % f.qual, True)
            if not fns:
                ctx.fact("module body", True)
