"""P23: every documented call compiles, whatever its data."""
from . import entry
from .common import *

FLOOR = 150


def run(ctx):
    ctx.rule("type-level interpretation: each documented call is walked with every runtime value forgotten, so only shapes, kinds and values known while tracing remain; "
             "loops and mapped functions are walked with an arbitrary element, both branches of every lax.cond and lax.switch are walked")
    ctx.rule("a Python branch, loop bound, conversion, shape or index that needs a forgotten value, an option that reaches a compiled function as data and is used structurally, "
             "a loop state or a pair of branches with different types, or inconsistent shapes is an error of the JAX tracer and reported where it happens")
    ctx.rule("results have the documented shapes and kinds; lens counts outside the model raise ValueError while tracing")
    ctx.assumptions += ["array arguments are runtime data; options documented as counts, flags and resolutions are Python values",
                        "shapes are sampled (vector lengths 1 to 7, grids of two ranks, several chunk sizes and budgets); data values are arbitrary"]
    jobs = entry.entries() + entry.refused()
    sites, labels = {}, {}
    for r in entry.walk(ctx, jobs):
        for (label, st, n, t) in [r["case"]]:
            ctx.cases.append((label, st, n, t))
            ctx.total += n
        ctx.undecided += r["undecided"]
        ctx.violations += r["violations"]
        sites.update(r["sites"])
    ctx.cases.sort(key=lambda c: c[0])
    ctx.extra = dict(entry_points=len(jobs), compiled_boundaries={str(k): v[0] for k, v in sites.items()})
