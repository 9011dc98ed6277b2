"""P25: numerical work is never demoted to lower precision."""
import glob
import importlib
import multiprocessing
import os
import time
import warnings

from . import entry
from .common import *
from sa import check as CH
from sa import conv, effects

FLOOR = 400
BUDGET = 780        # seconds for the whole sweep, quick tier

POS = [
    "def f(x):\n    return x.astype(jnp.float32)\n",
    "def f(x):\n    return jnp.asarray(x, dtype='complex64')\n",
    "def f(x):\n    return np.float32(x) * 2\n",
    "D = jnp.float32\ndef f(x):\n    return jnp.zeros(3, dtype=D) + x\n",
    "def f(x):\n    return jnp.zeros(3, 'f4') + x\n",
    "jax.config.update('jax_enable_x64', False)\n",
    "from numpy import single as s\ndef f(x):\n    return s(x)\n",
    "def f(x):\n    return jnp.asarray(x, jnp.dtype('float32'))\n",
    "def f(a, b):\n    return jnp.matmul(a, b, precision='fastest')\n",
]
NEG = [
    "def f(x):\n    return x.astype(jnp.result_type(x, jnp.complex64))\n",
    "def f(x):\n    return x if x.dtype == jnp.float32 else 2 * x\n",
    "def f(x):\n    return jnp.finfo(jnp.float32).eps if x.dtype in (jnp.float32, jnp.complex64) else jnp.finfo(x.dtype).eps\n",
    "def f(x):\n    return jnp.zeros(3, dtype=jnp.complex128) + x.astype(float)\n",
    "def f(x, mode='f'):\n    return x if mode == 'f' else -x\n",
    "jax.config.update('jax_enable_x64', True)\n",
    "def f(a):\n    return jnp.array(0, dtype=jnp.int32), jnp.dtype('float32') == a.dtype\n",
]
HEAD = "import numpy as np\nimport jax\nimport jax.numpy as jnp\n"


def worker(args):
    name, tier, limit = args
    warnings.simplefilter("ignore")
    t = time.time()
    ctx = CH.Ctx(name.upper(), tier)
    ctx.collect = []
    ctx.t0 = t - max(0, (20000 if tier == "thorough" else 780) - limit)
    try:
        importlib.import_module("checks." + name).run(ctx)
    except Exception as e:
        ctx.undecided.append(("driver", "%s" % e))
    events = {}
    for k, d, loc in ctx.collect:
        if loc and str(loc[0]).startswith("src/"):
            events.setdefault((k, d, tuple(loc)), 0)
            events[(k, d, tuple(loc))] += 1
    return name, len(ctx.cases), len(ctx.undecided), dict(ctx.it.visited), ctx.it.calls, ctx.it.steps, events


def sweep(tier, limit):
    """value-level cases of the other properties: only the NumPy modules in the quick tier, everything in the thorough one"""
    here = os.path.dirname(os.path.abspath(__file__))
    names = sorted(os.path.basename(f)[:-3] for f in glob.glob(here + "/p[0-9][0-9].py"))
    names = [n for n in names if n not in ("p23", "p24", "p25")]
    if tier != "thorough":
        names = [n for n in names if n in ("p13", "p14")]
    # long ones first
    first = [n for n in ("p21", "p22", "p18", "p01", "p14", "p20") if n in names]
    names = first + [n for n in names if n not in first]
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1), entry._limit if tier != "thorough" else None, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(worker, [(n, tier, limit) for n in names], chunksize=1):
            yield r


TITLES = {"narrow": "no conversion to a narrower type", "discard-imag": "no imaginary part is dropped by a conversion",
          "float-to-int": "no floating value is truncated to an integer"}


def run(ctx):
    ctx.rule("syntax: no expression of the package builds or converts data with a floating or complex type narrower than double precision, and no switch lowers the working precision")
    ctx.rule("type level: in every documented call (and, thorough tier, in every case analysed for the other properties), each conversion (astype, dtype=, array construction, assignment into an array) met by the interpreter is classified by the kinds of its operand and target; floating to integer, complex to real and any 32-bit target are reported where they happen")
    ctx.assumptions += ["an explicit .real/.imag/abs is a real quantity explicitly formed", "64-bit types are enabled by the caller (jax_enable_x64), as the documentation requires"]
    root = os.environ.get("MICROJAX_SRC") or "/repo/src"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with ctx.case("the lint recognises its positive examples and accepts the clean ones"):
            for t in POS + NEG:
                got = conv.uses(effects.Package({"ex": ("ex.py", HEAD + t)}, "ex"))[0]
                if bool(got) != (t in POS):
                    raise M.Unsupported("self test: %s\n%s" % (got, t))
                ctx.n += 1
        pkg = effects.Package(effects.load(root), "microjax")
        found, n = conv.uses(pkg)
    for m in sorted(pkg.mods.values(), key=lambda m: m.name):
        mine = [f for f in found if f[0] is m]
        for k, (_, line, own, text) in enumerate(mine):
            with ctx.case("%s of %s: type %d" % (own, m.name, k), "%s:%s" % (m.name, own)):
                ctx.fact(text, False, "", (m.path, line, own))
        if not mine:
            with ctx.case("%s names no narrow type" % m.name, m.name):
                for f in pkg.fns.values():
                    if f.mod is m:
                        ctx.fact("%s" % f.qual, True)
                ctx.fact("module body", True)
    events, visited, cases = {}, {}, 0
    note = lambda k, d, loc, who: loc and str(loc[0]).startswith("src/") and events.setdefault((k, d, tuple(loc)), []).append(who)
    for r in entry.walk(ctx, entry.entries(), 330):
        cases += 1
        for k, d, loc in r["events"]:
            note(k, d, loc, r["case"][0])
    visited.update(ctx.it.visited)
    limit = 20000 if ctx.thorough else min(330, BUDGET - (time.time() - ctx.t0) - 60)
    for name, nc, nu, vis, calls, steps, ev in sweep(ctx.tier, limit):
        cases += nc
        ctx.it.calls += calls
        ctx.it.steps += steps
        for k, v in vis.items():
            visited[k] = visited.get(k, 0) + v
        for k in ev:
            events.setdefault(k, []).append(name.upper())
    ctx.extra = dict(identifiers_classified=n, cases_swept=cases, functions_swept=len(visited))
    ctx.it.visited.update(visited)
    hits = {}
    for (kind, detail, loc), where in events.items():
        hits.setdefault((kind, loc[2] if len(loc) > 2 else "?"), []).append((detail, loc, where))
    for (kind, fn), l in sorted(hits.items()):
        if kind not in TITLES:
            continue
        detail, loc, where = sorted(l, key=lambda x: x[1][1])[0]
        with ctx.case("%s: %s" % (fn, TITLES[kind]), fn):
            ctx.fact("%s (met while analysing %s)" % (detail, ", ".join(sorted(set(where))[:4])), False, "", loc)
    bad = {fn for (k, fn) in hits if k in TITLES}
    with ctx.case("conversions met in the analysed functions"):
        for f in sorted(visited):
            if f not in bad:
                ctx.fact("%s demotes nothing" % f, True)

