"""P20: Green's theorem over parity-signed closed contours."""
import itertools

from .common import *

FLOOR = 100
CA = P + "caustics."
IN = CA + "integrate:"
EX = CA + "extended_source."
F = Fraction
PI = Arr(T.PI if hasattr(T, "PI") else T.sym("pi", True, True), "f")


def shoelace(zs):
    """signed area enclosed by the polygon"""
    tot = A(0)
    for a, b in zip(zs, zs[1:] + zs[:1]):
        tot = tot + M.imag(M.conj(a) * b)
    return tot / 2


def items(x):
    return [Arr(t, x.dt) for t in x.a]


def closed(zs, pad):
    return arr(zs + [zs[0]] + [A(0)] * pad, "c")


def uniform(ctx):
    for n in (1, 2, 3, 4, 5):
        for pad in (0, 1, 3):
            with ctx.case("area of a closed contour of %d points followed by %d empty slots" % (n, pad), IN + "_integrate_unif"):
                f = private(ctx, IN + "_integrate_unif", "z", "tidx")
                zs = items(V("z", n, real=False))
                for t in (A(n), Arr(T.num(n), "i", False, True)):
                    ctx.eq("area", Arr(A(ctx.it.call(f, [closed(zs, pad), t], {})).item(), "f"), shoelace(zs))


# brightness x^i y^j and the indefinite integrals of it
MONO = [(0, 0), (1, 0), (0, 1), (1, 1)]


def mono(z, i, j):
    x, y = M.real(z), M.imag(z)
    r = A(1) * x * 0 + 1
    for _ in range(i):
        r = r * x
    for _ in range(j):
        r = r * y
    return r


def green(zs, i, j):
    """trapezoidal value of -1/2 oint (int^y B dy) dx + 1/2 oint (int^x B dx) dy"""
    tot = A(0)
    for a, b in zip(zs, zs[1:] + zs[:1]):
        pa, pb = (mono(u, i, j + 1) / (j + 1) for u in (a, b))
        qa, qb = (mono(u, i + 1, j) / (i + 1) for u in (a, b))
        tot = tot - (pa + pb) * (M.real(b) - M.real(a)) / 4 + (qa + qb) * (M.imag(b) - M.imag(a)) / 4
    return tot


def profile(r, u1):
    inside = 1 + M.sqrt(1 - r * r)
    return 3 / (3 - u1) * (u1 * inside + 1 - 2 * u1)


def dark(ctx):
    w0, rho = cx("w0"), pos("rho")
    for npts in (2, 3, 4) + ((5,) if ctx.thorough else ()):
        for n, pad in ((2, 0), (2, 1), (3, 0), (3, 2)):
            for i, j in MONO:
                with ctx.case("brightness x^%d y^%d, %d nodes, %d points, %d empty slots" % (i, j, npts, n, pad), IN + "_integrate_ld"):
                    f = private(ctx, IN + "_integrate_ld", "z", "tidx", "w0", "rho")
                    log = []

                    def bright(b):
                        log.append(b)
                        z = A(b["z"])
                        x = mono(z, i, j)
                        return Arr(x.a, "f", False, True)
                    ctx.it.intercepts[IN + "_brightness_profile"] = bright
                    zs = items(V("z", n, real=False))
                    got = ctx.it.call(f, [closed(zs, pad), A(n), w0, rho], dict(u1=S("u1"), nlenses=2, npts=npts, a=pos("a"), e1=pos("e1")))
                    need(ctx, log, "_brightness_profile")
                    for b in log:
                        ctx.eq("source centre", A(b["w0"]), w0)
                        ctx.eq("source radius", A(b["rho"]), rho)
                        ctx.eq("coefficient", A(b["u1"]), S("u1"))
                    if npts == 5:
                        raise M.Unsupported("three-node rule")
                    ctx.eq("flux", Arr(A(got).item(), "f"), green(zs, i, j))
    for n in (1, 2):
        with ctx.case("Gauss-Legendre rule with %d nodes" % n, IN + "_integrate_gauss_legendre"):
            f = private(ctx, IN + "_integrate_gauss_legendre", "f", "a", "b", "n")
            a, b = V("a", 2), V("b", 2)
            for k in range(2 * n):
                fn = lambda x: x ** k if k else x * 0 + 1
                got = A(ctx.it.call(f, [I.Builtin("integrand", lambda args, kw: fn(A(args[0]))), a, b], dict(n=n)))
                for m in range(2):
                    x, y = Arr(a.a[m], "f"), Arr(b.a[m], "f")
                    ctx.eq("degree %d" % k, Arr(got.a[m], "f"), (y ** (k + 1) - x ** (k + 1)) / (k + 1))
    for nl in (1, 2, 3):
        with ctx.case("brightness at an image position, %d lenses" % nl, IN + "_brightness_profile"):
            f = private(ctx, IN + "_brightness_profile", "z", "rho", "w0")
            u1 = S("u1")
            kw = {1: {}, 2: dict(a=pos("a"), e1=pos("e1")), 3: dict(a=pos("a"), e1=pos("e1"), e2=pos("e2"), r3=pos("r3"), psi=S("psi"))}[nl]
            d = rho * frac("k")
            log = []

            def lens(b):
                log.append(b)
                z = A(b["z"])
                return Arr((w0 + d * cis(S("phi"))).item() if z.shape == () else np.vectorize(lambda _: (w0 + d * cis(S("phi"))).item(), otypes=[object])(z.a), "c", False, True)
            ctx.it.intercepts[P + "point_source:lens_eq"] = lens
            M.DECIDE[0] = True
            try:
                got = ctx.it.call(f, [cx("z"), rho, w0], dict(u1=u1, nlenses=nl, **kw))
                need(ctx, log, "lens_eq")
                ctx.eq("inside the disc", Arr(M.settle(A(got).item()), "f"), profile(frac("k"), u1))
            finally:
                M.DECIDE[0] = False
            ctx.eq("lens map taken at the point", A(log[0]["z"]), cx("z"))
            ctx.eq("lens count", A(log[0]["nlenses"]), A(nl))
            for k, v in kw.items():
                ctx.eq("lens parameter %s" % k, A(log[0][k]), v)


def frac(name):
    p = pos(name)
    return p / (1 + p)


def total(ctx):
    w, rho = cx("w"), pos("rho")
    for ld in (False, True):
        for nl, nim, npt in ((1, 2, 3), (2, 5, 3), (2, 5, 4), (3, 10, 2)):
            with ctx.case("all images closed, %d lenses, %d limb points, limb darkening %s" % (nl, npt, ld), EX + "mag:mag_extended_source"):
                kw = {1: {}, 2: dict(s=pos("s"), q=pos("q")), 3: dict(s=pos("s"), q=pos("q"), q3=pos("q3"), r3=pos("r3"), psi=S("psi"))}[nl]
                z = V("z", nim, npt, real=False)
                par = V("sign", nim)
                # the last limb point lies next to the first
                for k in range(nim):
                    z.a[k, -1] = (Arr(z.a[k, 0], "c") + (A(0) if nl == 1 else A(F(1, 10 ** 5)) * frac("gap")) * (A(F(3, 5)) + A(F(4, 5)) * Arr(T.I, "c"))).item()
                p = np.empty((nim, npt), dtype=object)
                m = np.empty((nim, npt), dtype=object)
                for k in np.ndindex(nim, npt):
                    p[k], m[k] = par.a[k[0]], T.TRUE
                log, flux = [], {}
                ctx.it.intercepts[EX + "limb:_images_of_source_limb"] = lambda b: (log.append(b), (z, Arr(m, "b", False, True), Arr(p, "f", False, True)))[1]

                def ldh(b):
                    if not {"z", "tidx", "w0", "rho", "u1", "nlenses"} <= set(b):
                        raise M.Unsupported("interface of _integrate_ld")
                    c = A(b["z"])
                    ctx.eq("coefficient of the limb-darkened integral", A(b["u1"]), S("u1"))
                    ctx.eq("source radius of the limb-darkened integral", A(b["rho"]), rho)
                    ctx.eq("lens count of the limb-darkened integral", A(b["nlenses"]), A(nl))
                    if len(log) == 1:
                        for k in set(log[0]) & set(b) - {"z", "npts", "niter", "tidx", "u1", "nlenses", "rho"}:
                            ctx.eq("%s of the limb-darkened integral" % k, A(b[k]), A(log[0][k]))
                    hit = None
                    for k in range(nim):
                        if ctx.same(c, arr(list(z.a[k]) + [z.a[k, 0]], "c")):
                            hit = k
                    if hit is None:
                        ctx.fact("limb-darkened integral over a closed image contour", all(ctx.same(Arr(t, "c"), A(0)) for t in c.a), "contour passed to the limb-darkened integral is no image contour closed on its first point: %s" % T.show(c.a[0], 3))
                        return A(0)
                    t = T.cval(A(b["tidx"]).item())
                    ctx.fact("the whole contour is integrated", t is not None and t >= npt - 1, "tail index %s for %d points" % (t, npt))
                    return Arr(T.sym("flux%d" % hit), "f", False, True)
                if ld:
                    ctx.it.intercepts[IN + "_integrate_ld"] = ldh
                M.DECIDE[0] = True
                try:
                    got = ctx.call(EX + "mag:mag_extended_source", w, rho, nlenses=nl, limb_darkening=ld, u1=S("u1"), **kw)
                finally:
                    M.DECIDE[0] = False
                need(ctx, log, "_images_of_source_limb")
                tot = A(0)
                for k in range(nim):
                    a = S("flux%d" % k) if ld else shoelace([Arr(t, "c") for t in z.a[k]])
                    tot = tot + Arr(par.a[k], "f") * a
                ctx.eq("magnification", Arr(A(got).item(), "f"), M.aabs(tot) / (PI * rho * rho))


def crossing(ctx):
    """two images exist on part of the limb only: they close into one contour"""
    rho = pos("rho")
    tx = pos("tx")
    unit = A(F(1, 100))

    def at(x, y, far=0):
        return (A(2 + far) + tx + unit * A(F(x))) + (A(2) + tx + unit * A(F(y))) * Arr(T.I, "c")
    npt = 10

    def pair(n, far):
        nonlocal tx
        tx = A(0) if len(arcs) > 1 else pos("tx")
        """upper and lower track of a pair that exists on n limb points"""
        x = {5: (0, 1, 4, 8, 9), 4: (0, 2, 7, 9), 3: (0, 2, 4)}[n]
        yu = {5: (0, 4, 6, 4, F(1, 10)), 4: (0, 5, 5, F(1, 10)), 3: (0, 6, F(1, 10))}[n]
        yd = {5: (F(-1, 10), -3, -5, -3, 0), 4: (F(-1, 10), -4, -6, 0), 3: (F(-1, 10), -6, 0)}[n]
        return [at(a, b, far) for a, b in zip(x, yu)], [at(a + (F(1, 10) if not i else 0), b, far) for i, (a, b) in enumerate(zip(x, yd))]
    for arcs, swap in ((((1, 5),), False), (((1, 5),), True), (((0, 5),), False), (((5, 5),), True), (((1, 3), (5, 4)), False), (((0, 4), (5, 5)), False)):
        with ctx.case("a pair of images exists on limb points %s only%s" % (" and ".join("%d-%d" % (a, a + n - 1) for a, n in arcs), ", listed the other way round" if swap else ""), EX + "mag:mag_extended_source"):
            kw = dict(s=pos("s"), q=pos("q"))
            z = V("z", 5, npt, real=False)
            par = V("sign", 3)
            p = np.empty((5, npt), dtype=object)
            m = np.empty((5, npt), dtype=object)
            for k in range(3):
                z.a[k, -1] = z.a[k, 0]
            for k, j in np.ndindex(5, npt):
                p[k, j], m[k, j] = (par.a[k] if k < 3 else T.ZERO), T.TRUE if k < 3 else T.FALSE
            for row in (3, 4):
                for j in range(npt):
                    z.a[row, j], p[row, j] = T.sym("ghost%d_%d" % (row, j), False, False), T.sym("ghostsign%d_%d" % (row, j))
            tot = A(0)
            for g, (first, n) in enumerate(arcs):
                up, dn = pair(n, 7 * g)
                tot = tot + shoelace(up + dn[::-1])
                for row, pts, sg in ((7 - 3 if swap else 3, up, 1), (3 if swap else 4, dn, -1)):
                    for j in range(n):
                        z.a[row, first + j], m[row, first + j], p[row, first + j] = pts[j].item(), T.TRUE, T.num(sg)
            log = []
            ctx.it.intercepts[EX + "limb:_images_of_source_limb"] = lambda b: (log.append(b), (z, Arr(m, "b", False, True), Arr(p, "f", False, True)))[1]
            M.DECIDE[0] = True
            try:
                got = ctx.call(EX + "mag:mag_extended_source", cx("w"), rho, nlenses=2, **kw)
            finally:
                M.DECIDE[0] = False
            need(ctx, log, "_images_of_source_limb")
            for k in range(3):
                tot = tot + Arr(par.a[k], "f") * shoelace([Arr(t, "c") for t in z.a[k]])
            ctx.eq("magnification", Arr(A(got).item(), "f"), M.aabs(tot) / (PI * rho * rho))


def run(ctx):
    ctx.rule("contour integrals are valued over arbitrary closed polygons with zero padding and compared with the shoelace formula (uniform) and with the trapezoidal Green integrals of exact antiderivatives for all bilinear brightnesses (limb-darkened); the quadrature is exact to its degree; the profile inside the disc is the normalised linear law; the magnification is the modulus of the sum of parity times integral over all contours, each closed on its first point, over pi rho^2, with all images closed or with a pair joined over part of the limb")
    ctx.assumptions += ["polygons of up to 5 points (the integrals are uniform in the length)", "quadrature nodes are the exact Gauss-Legendre nodes", "where along the integration line the limb-darkened quadrature is split is an accuracy choice and left free"]
    uniform(ctx)
    dark(ctx)
    total(ctx)
    crossing(ctx)
