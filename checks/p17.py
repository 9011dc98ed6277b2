"""P17: ray-shooting quadrature."""
from .common import *
from .p03 import public_params

FLOOR = 20
IR = P + "inverse_ray."
ES, BO = IR + "extended_source:", IR + "boundary:"
NEAR = Fraction(1, 10 ** 6)


def lagrange_stub(b):
    """interpolation through four points: linear in the ordinates, weights arbitrary functions of the abscissas"""
    e = A(b["epsilon"]).item()
    if T.cval(e) is not None and abs(T.cval(e)) > NEAR:
        from sa.check import Mismatch
        raise Mismatch("crossing estimate is regularised too strongly", "epsilon=%s" % T.cval(e), e.loc, ES + "cubic_interp")
    xs = [A(b[k]) for k in ("x", "x0", "x1", "x2", "x3")]
    ys = [A(b[k]) for k in ("y0", "y1", "y2", "y3")]
    sh = np.broadcast_shapes(*[x.shape for x in xs + ys])
    g = lambda x, i: np.broadcast_to(x.a, sh)[i]
    out = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        out[i] = weights([Arr(g(x, i), "f") for x in xs], [Arr(g(y, i), "f") for y in ys])
    return Arr(out if sh else out[()], "f", False, True)


def weights(xs, ys):
    return T.add(*[T.mul(y.item(), opaque("L", k, xs)) for k, y in enumerate(ys)])


class Grid:
    """two image regions with named bounds; the mapped rays are at named distances from the source centre"""

    def __init__(self, ctx, nr, nth, w, xcm, regions=2):
        self.ctx, self.w, self.xcm, self.nr, self.nth, self.n = ctx, w, xcm, nr, nth, regions
        self.rb = V("R", regions, 2)
        self.tb = V("Th", regions, 2)
        lin = lambda lo, hi, n, j: Arr(lo, "f") + (Arr(hi, "f") - Arr(lo, "f")) * A(j) / (n - 1)
        self.r = {(k, i): lin(self.rb.a[k, 0], self.rb.a[k, 1], nr, i) for k in range(regions) for i in range(nr)}
        self.th = {(k, j): lin(self.tb.a[k, 0], self.tb.a[k, 1], nth, j) for k in range(regions) for j in range(nth)}
        self.order = [(k, i, j) for k in range(regions) for i in range(nr) for j in range(nth)]
        self.next, self.seen = 0, set()
        self.at = {}
        it = ctx.it
        it.intercepts[IR + "merge_area:calc_source_limb"] = lambda b: (V("limb", 5, 3, real=False), BV("ok", 5, 3))
        it.intercepts[IR + "merge_area:define_regions"] = lambda b: (self.traced(self.rb), self.traced(self.tb))
        it.intercepts[P + "point_source:lens_eq"] = self.lens
        it.intercepts[ES + "cubic_interp"] = lagrange_stub

    def traced(self, x):
        return Arr(x.a, x.dt, False, True)

    def d(self, k, i, j):
        return Arr(T.sym("dist_%d_%d_%d" % (k, i, j), True, True), "f")

    def point(self, t):
        k, i, j = t
        if t not in self.at:
            self.at[t] = self.r[k, i] * cis(self.th[k, j]) - self.xcm
        return self.at[t]

    def lens(self, b):
        z = A(b["z"])
        out = np.empty(z.shape, dtype=object)
        for ix in np.ndindex(*z.shape):
            zi = Arr(z.a[ix], "c")
            for o in range(len(self.order)):
                t = self.order[(self.next + o) % len(self.order)]
                if self.ctx.same(zi, self.point(t)):
                    break
            else:
                raise self.ctx_mismatch(zi)
            self.next = (self.next + o + 1) % len(self.order)
            self.seen.add(t)
            out[ix] = (self.w + self.d(*t)).item()
        return Arr(out if z.shape else out[()], "c", False, True)

    def ctx_mismatch(self, zi):
        from sa.check import Mismatch
        return Mismatch("a ray is not on the polar grid of its region", "ray at %s" % T.show(zi.item(), 7), zi.item().loc, None)


def run(ctx):
    ctx.rule("with arbitrary region bounds and arbitrary distances of the mapped rays: magnification = sum over regions, radii and cells of r dr dtheta (brightness x covered fraction), divided by pi rho^2 (uniform) or rho^2 (normalised profile); a cell between samples j and j+1 counts fully if both are inside, and by the clipped interpolated crossing if one is")
    rho = pos("rho")
    for nl in (2, 3) if ctx.thorough else (2,):
        kw, ms, ps, xcm = public_params(nl)
        w = cx("w")
        for nr, nth in ((2, 4), (3, 6)) + (((2, 9), (5, 5)) if ctx.thorough else ()):
            with ctx.case("uniform disk, %d lenses, %d x %d rays per region" % (nl, nr, nth), ES + "mag_uniform"):
                g = Grid(ctx, nr, nth, w, xcm)
                got = ctx.call(ES + "mag_uniform", w + xcm, rho, nlenses=nl, r_resolution=nr, th_resolution=nth, Nlimb=3, **kw)
                need(ctx, g.seen, "lens_eq")
                ctx.fact("every ray of the grid is shot", len(g.seen) == len(g.order), "%d of %d" % (len(g.seen), len(g.order)))
                tot = A(0)
                for k in range(g.n):
                    dr, dth = g.r[k, 1] - g.r[k, 0], g.th[k, 1] - g.th[k, 0]
                    for i in range(nr):
                        s = A(0)
                        for j in range(1, nth - 2):
                            d = [g.d(k, i, j + o) for o in (-1, 0, 1, 2)]
                            i1, i2 = [T.lt(x.item(), rho.item()) for x in d[1:3]]
                            x = Arr(weights([rho] + d, [A(0), A(1), A(2), A(3)]), "f")
                            enter = M.clip(A(2) - x, A(0), A(1)).item()
                            leave = M.clip(x - A(1), A(0), A(1)).item()
                            s = s + Arr(T.ite(i1, T.ite(i2, T.ONE, leave), T.ite(i2, enter, T.ZERO)), "f")
                        tot = tot + dr * dth * g.r[k, i] * s
                ctx.eq("magnification", A(got), tot / (A(T.PI) * rho * rho))
        for nr, nth in ((2, 5), (2, 7)) + (((3, 9),) if ctx.thorough else ()):
            with ctx.case("limb-darkened disk, %d lenses, %d x %d rays per region" % (nl, nr, nth), ES + "mag_limb_dark"):
                g = Grid(ctx, nr, nth, w, xcm)
                u1, dc = S("u1"), pos("delta_c")
                edge = []

                def prof(b):
                    d = A(b["d"])
                    out = np.empty(d.shape, dtype=object)
                    for ix in np.ndindex(*d.shape):
                        out[ix] = opaque("profile", None, [Arr(d.a[ix], "f") * rho, A(b["u1"])])
                    return Arr(out if d.shape else out[()], "f", False, True)
                ctx.it.intercepts[IR + "limb_darkening:Is_limb_1st"] = prof

                def fac(b):
                    d = A(b["delta_B"])
                    out = np.empty(d.shape, dtype=object)
                    for ix in np.ndindex(*d.shape):
                        # guard constants added to the gap only avoid 0/0
                        x = strip(Arr(d.a[ix], "f"))
                        out[ix] = opaque("edge", None, [x, A(b["delta_c"])])
                    return Arr(out if d.shape else out[()], "f", False, True)
                ctx.it.intercepts[BO + "calc_facB"] = fac
                got = ctx.call(ES + "mag_limb_dark", w + xcm, rho, nlenses=nl, u1=u1, delta_c=dc, r_resolution=nr, th_resolution=nth, Nlimb=3, **kw)
                need(ctx, g.seen, "lens_eq")
                ctx.fact("every ray of the grid is shot", len(g.seen) == len(g.order), "%d of %d" % (len(g.seen), len(g.order)))
                tot = A(0)
                for k in range(g.n):
                    dr, dth = g.r[k, 1] - g.r[k, 0], g.th[k, 1] - g.th[k, 0]
                    for i in range(nr):
                        s = A(0)
                        for j in range(2, nth - 2):
                            d = [g.d(k, i, j + o) for o in (-2, -1, 0, 1, 2)]
                            in1, in2, in3 = [T.lt(x.item(), rho.item()) for x in d[1:4]]
                            x1 = Arr(weights([rho] + d[:4], [A(0), A(1), A(2), A(3)]), "f")
                            x2 = Arr(weights([rho] + d[1:], [A(0), A(1), A(2), A(3)]), "f")
                            f1 = opaque("edge", None, [M.clip(A(2) - x1, A(0), A(1)), dc])
                            f2 = opaque("edge", None, [M.clip(x2 - A(1), A(0), A(1)), dc])
                            br = opaque("profile", None, [d[2], u1])
                            cov = T.ite(in2, T.ite(in1, T.ite(in3, T.ONE, f2), T.ite(in3, f1, T.ZERO)), T.ZERO)
                            s = s + Arr(T.mul(br, cov), "f")
                        tot = tot + dr * dth * g.r[k, i] * s
                ctx.eq("magnification", A(got), tot / (rho * rho))
    with ctx.case("rays are inside strictly within one source radius", BO + "in_source"):
        d = V("d", 3)
        r = A(ctx.call(BO + "in_source", d, rho))
        ctx.fact("shape", r.shape == (3,), "shape %s" % (r.shape,))
        for j in range(3):
            ctx.eq("membership", Arr(r.a[j], "f"), Arr(T.ite(T.lt(d.a[j], rho.item()), T.ONE, T.ZERO), "f"))
    for nl in (2, 3):
        from .p01 import params
        kw, ms, ps = params(nl)
        with ctx.case("distance of a mapped ray, %d lenses" % nl, BO + "distance_from_source"):
            r0, th, w, sh = pos("r0"), V("th", 2), cx("w"), S("shift")
            d = A(ctx.call(BO + "distance_from_source", r0, th, w, sh, nlenses=nl, **kw))
            for j in range(2):
                z = r0 * cis(Arr(th.a[j], "f")) - sh
                ctx.eq("distance", Arr(d.a[j], "f"), M.aabs(lens_map(z, ms, ps) - w))
        with ctx.case("distance of an adaptively sampled ray, %d lenses" % nl, BO + "distance_from_source_adaptive"):
            r0, t, lo, hi, w, sh = pos("r0"), V("t", 2), S("lo"), S("hi"), cx("w"), S("shift")
            d = A(ctx.call(BO + "distance_from_source_adaptive", r0, t, lo, hi, w, sh, nlenses=nl, **kw))
            for j in range(2):
                z = r0 * cis(lo + (hi - lo) * Arr(t.a[j], "f")) - sh
                ctx.eq("distance", Arr(d.a[j], "f"), M.aabs(lens_map(z, ms, ps) - w))
    with ctx.case("crossing estimate is the cubic through its four points", ES + "cubic_interp"):
        x, y = S("x"), [S("y%d" % k) for k in range(4)]
        xs = [S("x%d" % k) for k in range(4)]
        got = A(ctx.call(ES + "cubic_interp", x, *xs, *y, epsilon=A(0)))
        tot = A(0)
        for k in range(4):
            t = y[k]
            for m in range(4):
                if m != k:
                    t = t * (x - xs[m]) / (xs[k] - xs[m])
            tot = tot + t
        ctx.eq("interpolant", got, tot)
    with ctx.case("edge factor", BO + "calc_facB"):
        d, dc = pos("gap"), pos("gapc")
        got = A(ctx.call(BO + "calc_facB", d, dc))
        # integral of sqrt(x) over (0, d + 1/2), relative to sqrt(d); linear rule for gaps not above delta_c
        big = M.sqrt(d + Fraction(1, 2)) * (d + Fraction(1, 2)) / M.sqrt(d) * Fraction(2, 3)
        small = d * Fraction(2, 3) + Fraction(1, 2)
        ctx.eq("factor", got, Arr(T.ite(T.gt(d.item(), dc.item()), big.item(), small.item()), "f"))


def strip(x):
    """remove an added constant of guard size"""
    n = x.item()
    if n.op == "add":
        keep = [a for a in n.args if not (T.cval(a) is not None and abs(T.cval(a)) <= NEAR)]
        if len(keep) < len(n.args):
            return Arr(T.add(*keep), "f")
    return x
