"""P01: lens map and Jacobian determinant."""
from .common import *

PS = P + "point_source"
FLOOR = 7


def params(nl):
    if nl == 1:
        return {}, [A(1)], [A(0)]
    a, e1 = S("a"), S("e1")
    if nl == 2:
        return dict(a=a, e1=e1), lens_masses(2, e1), lens_positions(2, a)
    e2, r3, psi = S("e2"), S("r3"), S("psi")
    return dict(a=a, e1=e1, e2=e2, r3=r3, psi=psi), lens_masses(3, e1, e2), lens_positions(3, a, r3, psi)


def run(ctx):
    ctx.rule("lens_eq(z) has the value graph z - sum m_i/conj(z - z_i); lens_eq_det_jac(z) has 1-|sum m_i/conj(z - z_i)^2|^2 of the same lens, for every z (scalar, and elementwise on arrays)")
    ctx.assumptions.append("real arithmetic: floating rounding is not modelled")
    for nl in (1, 2, 3):
        for shape in ((), (2,), (2, 2)):
            kw, ms, ps = params(nl)
            z = V("z", *shape, real=False) if shape else cx("z")
            with ctx.case("lens map, %d lens(es), shape %s" % (nl, shape), PS + ":lens_eq"):
                ctx.eq("lens_eq", ctx.call(PS + ":lens_eq", z, nlenses=nl, **kw), lens_map(z, ms, ps))
            with ctx.case("Jacobian determinant, %d lens(es), shape %s" % (nl, shape), PS + ":lens_eq_det_jac"):
                ctx.eq("lens_eq_det_jac", ctx.call(PS + ":lens_eq_det_jac", z, nlenses=nl, **kw), det_jac(z, ms, ps))
    for nl in (0, 4, -1):
        for fn in ("lens_eq", "lens_eq_det_jac"):
            kw, ms, ps = params(3)
            with ctx.case("unsupported lens count %d refused by %s" % (nl, fn), PS + ":" + fn):
                ctx.raises("lens count %d" % nl, "ValueError", lambda: ctx.call(PS + ":" + fn, cx("z"), nlenses=nl, **kw))
    kw, ms, ps = params(2)
    with ctx.case("positional lens parameters", PS + ":lens_eq"):
        z = cx("z")
        ctx.eq("default lens count", ctx.call(PS + ":lens_eq", z, **kw), lens_map(z, ms, ps))
        ctx.eq("default lens count det", ctx.call(PS + ":lens_eq_det_jac", z, **kw), det_jac(z, ms, ps))
