"""P16: limb-darkening profiles."""
from .common import *
from .p01 import params

FLOOR = 8
LD, IN = P + "inverse_ray.limb_darkening:", P + "caustics.integrate:"


def run(ctx):
    ctx.rule("ray-shooting profile = (1-u1(1-sqrt(1-d^2))) / (pi (1-u1/3)) inside the disk and 0 outside; contour profile = (1-u1(1-mu)) / (1-u1/3) with mu = sqrt(1-r^2) inside and mu = -sqrt(1-1/r^2) outside, r measured from the source centre after mapping by the same lens; 1-u1/3 is the disk integral of the law over pi")
    u1 = S("u1")
    for shape in ((), (3,)):
        with ctx.case("ray-shooting profile, shape %s" % (shape,), LD + "Is_limb_1st"):
            d = V("dist", *shape, pos=True) if shape else pos("dist")
            got = A(ctx.call(LD + "Is_limb_1st", d, u1))
            ctx.fact("shape", got.shape == shape, "shape %s" % (got.shape,))
            for i in np.ndindex(*shape):
                x = Arr(d.a[i], "f")
                law = (1 - u1 * (1 - M.sqrt(1 - x * x))) / (A(T.PI) * (1 - u1 / 3))
                ctx.eq("profile", Arr(got.a[i], "f"), Arr(T.ite(T.lt(x.item(), T.ONE), law.item(), T.ZERO), "f"))
    with ctx.case("ray-shooting profile without limb darkening is the uniform disk", LD + "Is_limb_1st"):
        x = pos("dist")
        got = A(ctx.call(LD + "Is_limb_1st", x))
        ctx.eq("profile", got, Arr(T.ite(T.lt(x.item(), T.ONE), (1 / A(T.PI)).item(), T.ZERO), "f"))
    for nl in (1, 2, 3):
        with ctx.case("contour profile, %d lenses" % nl, IN + "_brightness_profile"):
            private(ctx, IN + "_brightness_profile", "z", "rho", "w0")
            kw, ms, ps = params(nl)
            w0, rho, t = cx("w0"), pos("rho"), pos("dist")
            seen = []

            def lens(b):
                seen.append(b)
                return Arr((w0 + rho * t).a, "c", False, True)
            z = cx("z")
            ctx.it.intercepts[P + "point_source:lens_eq"] = lens
            got = A(ctx.call(IN + "_brightness_profile", z, rho, w0, u1=u1, nlenses=nl, **kw))
            need(ctx, seen, "lens_eq")
            for b in seen:
                ctx.eq("the contour point itself is mapped", A(b["z"]), z)
                ctx.it.intercepts = {}
                same_lens(ctx, "mapped by the same lens", nl, b, ms, ps)
            g = lambda x: Arr(T.ite(T.gt(x.item(), T.ZERO), M.sqrt(x).item(), T.ZERO), "f")
            law = lambda mu: ((1 - u1 * (1 - mu)) / (1 - u1 / 3)).item()
            ctx.eq("profile", got, Arr(T.ite(T.le(t.item(), T.ONE), law(g(1 - t * t)), law(-1 * g(1 - 1 / (t * t)))), "f"))
    with ctx.case("contour profile without limb darkening is the uniform disk", IN + "_brightness_profile"):
        private(ctx, IN + "_brightness_profile", "z", "rho", "w0")
        kw, ms, ps = params(2)
        got = A(ctx.call(IN + "_brightness_profile", cx("z"), pos("rho"), cx("w0"), nlenses=2, **kw))
        ctx.eq("profile", got, A(1))
