"""P19: when the cheap approximation is accepted."""
from .common import *

FLOOR = 30
PS, IR, CA, MP = P + "point_source", P + "inverse_ray.", P + "caustics.", P + "multipole"
F = Fraction


def proximity(w, z, mask, rho, delta, a, e1):
    """multipole + cusp limit, and the ghost-image criterion, for one position; z: images, mask: which are genuine (Python bools)"""
    e2 = 1 - e1
    fp = lambda x: e1 / ((x - a) * (x - a)) + e2 / ((x + a) * (x + a))
    fpp = lambda x: -2 * e1 / ((x - a) * (x - a) * (x - a)) - 2 * e2 / ((x + a) * (x + a) * (x + a))
    size = rho + A(F(1, 1000))
    mu, ghost = A(0), A(0)
    for x, m in zip(z, mask):
        xb = M.conj(x)
        j = 1 - M.aabs(fp(x) * fp(xb))
        if m:
            g = fp(xb) * fp(xb) * fp(xb) * fpp(x) * fpp(x)
            mu = mu + M.aabs(18 * M.imag(g) / (j * j * j * j * j)) * size * size
        else:
            h = M.conj(w) + e1 / (x - a) + e2 / (x + a)
            jh = 1 - M.aabs(fp(x) * fp(h))
            ghost = ghost + M.aabs(j * jh * jh / (jh * fpp(xb) * fp(x) - M.conj(jh) * fpp(x) * fp(xb) * fp(h)))
    ok = M.compare("<", A(F(2, 100)) * mu + delta, A(F(1, 100)))
    if not all(mask):
        ok = Arr(T.band(ok.item(), M.compare(">", ghost / 2, 4 * size).item()), "b")
    return ok


def planetary(w, rho, s, q):
    d = w - (s / 2 - 1 / s)
    return M.compare(">", M.real(d * M.conj(d)), 2 * (rho * rho + 9 * q / (s * s)))


def accepted(w, z, mask, rho, delta, s, q):
    """w in the frame midway between the lenses"""
    t1 = proximity(w, z, mask, rho, delta, s / 2, q / (1 + q)).item()
    t2 = planetary(w, rho, s, q).item()
    return Arr(T.ite(T.lt(A(q).item(), T.num(F(1, 100))), T.band(t1, t2), t1), "b")


def images(ctx, z, mask):
    """stand-in for the image solver: z[k][i] are the images of position i, mask[k][i] their validity"""
    seen = []

    def h(b):
        w = A(b["w"])
        if w.shape != (len(z[0]),):
            raise M.Unsupported("images requested for positions of shape %s" % (w.shape,))
        seen.append(b)
        za = np.empty((len(z), len(z[0])), dtype=object)
        ma = np.empty(za.shape, dtype=object)
        for k, i in np.ndindex(*za.shape):
            za[k, i] = A(z[k][i]).item()
            ma[k, i] = T.TRUE if mask[k][i] else T.FALSE
        return Arr(za, "c", False, True), Arr(ma, "b", False, True)
    ctx.it.intercepts[PS + ":_images_point_source"] = h
    return seen


def multi(ctx):
    """the multipole estimate and its correction: arbitrary values per position"""
    seen = []

    def h(b):
        n = A(b["z"]).shape[1:]
        seen.append(b)
        mu, de = np.empty(n, dtype=object), np.empty(n, dtype=object)
        for i in np.ndindex(*n):
            mu[i] = T.sym("multi" + "".join("_%d" % k for k in i))
            de[i] = T.sym("delta" + "".join("_%d" % k for k in i))
        return Arr(mu, "f", False, True), Arr(de, "f", False, True)
    ctx.it.intercepts[MP + ":mag_hexadecapole"] = h
    return seen


def c(x, y):
    return A(x) + A(y) * Arr(T.I, "c")


def slices(thorough):
    """(name, s, q, w, two images): every argument moves along a line in turn, the others stay at generic rational values"""
    t = S("t")
    r = lambda a, b=1: A(F(a, b))
    g = dict(s=r(2), q=r(1, 2), w=c(r(1, 3), r(1, 2)), z=[c(r(2), r(1)), c(r(-1, 2), r(1))])
    yield "first image moving along a vertical line", dict(g, z=[c(r(2), t), g["z"][1]])
    yield "second image moving along a horizontal line", dict(g, z=[g["z"][0], c(t, r(1))])
    yield "position moving along a horizontal line", dict(g, w=c(t, r(1, 2)))
    yield "planetary mass ratio, position moving along a vertical line", dict(g, q=r(1, 500), w=c(r(1, 3), t))
    tp = pos("tp")
    yield "mass ratio varies", dict(g, q=tp)
    yield "separation varies", dict(g, s=2 * tp)
    if thorough:
        yield "images moving along lines", dict(g, s=r(6, 5), q=r(1, 3), z=[c(r(2, 3), t), c(r(-3, 7), t)])
        yield "position moving obliquely", dict(g, q=r(1, 500), w=c(t, r(2, 9) - 3 * t), z=[c(r(1, 5), r(-4, 3)), c(r(9, 8), r(1, 6))])


PATTERNS = ((True, True), (True, False), (False, True), (False, False))


def backends(ctx, w, rho, s, q):
    """the acceptance decision as each backend expresses it"""
    xcm = (s / 2) * (1 - q) / (1 + q)

    def tf():
        return A(ctx.call(IR + "cond_extended:test_full", w, rho, nlenses=2, a=s / 2, e1=q / (1 + q))), None

    def con():
        ctx.it.intercepts[CA + "extended_source.mag:mag_extended_source"] = lambda b: Arr(T.sym("full"), "f", False, True)
        return A(ctx.call(CA + "lightcurve:magnifications", w + xcm, rho, nlenses=2, s=s, q=q)), "value"

    def lc():
        ctx.it.intercepts[IR + "extended_source:mag_uniform"] = lambda b: Arr(T.sym("full"), "f", False, True)
        n = w.shape[0]
        return A(ctx.call(IR + "lightcurve:mag_binary", w + xcm, rho, MAX_FULL_CALLS=n, chunk_size=n, s=s, q=q)), "value"
    return (("test_full", IR + "cond_extended:test_full", tf), ("contour light curve", CA + "lightcurve:magnifications", con), ("mag_binary", IR + "lightcurve:mag_binary", lc))


def judge(ctx, got, kind, ok, i=0):
    ctx.fact("one result per position", got.ndim == 1 and got.shape[0] > i, "shape %s" % (got.shape,))
    if kind is None:
        ctx.eq("decision", Arr(got.a[i], "b"), ok)
    else:
        ctx.eq("value", Arr(got.a[i], "f"), Arr(T.ite(ok.item(), T.sym("multi_%d" % i), T.sym("full")), "f"))


def run(ctx):
    ctx.rule("with images, validity flags and the multipole correction arbitrary, the acceptance decision of each backend (public light curves and test_full) is the reference predicate: 0.02*sum|6 Im(3 f'(zb)^3 f''(z)^2)/J^5|(rho+0.001)^2 + delta < 0.01 over genuine images, half the summed ghost distance > 4(rho+0.001) when a spurious root exists, and |w-(a-1/s)|^2 > 2(rho^2+9q/s^2) for q<0.01; triple lenses are never accepted")
    ctx.assumptions.append("the image and cusp criteria are rational functions of the images, position, mass ratio and separation; they are compared as functions along lines in each of these arguments (rho and the correction arbitrary throughout), the planetary criterion for all arguments at once; two images, all four validity patterns")
    nf.FACTOR[0] = True
    rho = pos("rho")
    for name, g in slices(ctx.thorough):
        s, q = g["s"], g["q"]
        for label, anchor, _ in backends(ctx, None, None, s, q):
            with ctx.case("%s: %s" % (label, name), anchor):
                for mask in PATTERNS:
                    w = arr([g["w"]], "c")
                    run_ = dict((l, f) for l, a, f in backends(ctx, w, rho, s, q))[label]
                    seen, hx = images(ctx, [[z] for z in g["z"]], [[m] for m in mask]), multi(ctx)
                    got, kind = run_()
                    need(ctx, seen, "_images_point_source")
                    need(ctx, hx, "mag_hexadecapole")
                    for b in hx:
                        ctx.eq("source radius of the multipole", A(b["rho"]), rho)
                        zb, mb = A(b["z"]), A(b["z_mask"])
                        ctx.fact("images of the multipole", zb.ndim == 2 and zb.shape == mb.shape and zb.shape[1] == 1, "images of shape %s, validity of shape %s" % (zb.shape, mb.shape))
                        ctx.fact("every image reaches the multipole once", zb.shape[0] == len(mask), "%d of %d images" % (zb.shape[0], len(mask)))
                    judge(ctx, got, kind, accepted(g["w"], g["z"], mask, rho, Arr(T.sym("delta_0"), "f"), s, q))
    s, q, w = pos("s"), pos("q"), V("w", 1, real=False)
    x = S("px")
    for label, anchor, f in backends(ctx, w, rho, s, q):
        with ctx.case("%s: planetary criterion, all arguments free" % label, anchor):
            images(ctx, [[x]], [[True]]), multi(ctx)
            got, kind = f()
            t1 = T.lt(T.sym("delta_0"), T.num(F(1, 100)))
            ok = T.ite(T.lt(q.item(), T.num(F(1, 100))), T.band(t1, planetary(Arr(w.a[0], "c"), rho, s, q).item()), t1)
            judge(ctx, got, kind, Arr(ok, "b"))
    with ctx.case("test_full, triple lens", IR + "cond_extended:test_full"):
        images(ctx, [[cx("za")] * 2, [cx("zb")] * 2], [[True] * 2, [False] * 2]), multi(ctx)
        got = A(ctx.call(IR + "cond_extended:test_full", V("w", 2, real=False), rho, nlenses=3, a=S("a"), e1=S("e1"), e2=S("e2"), r3=S("r3"), psi=S("psi")))
        ctx.fact("one decision per position", got.shape == (2,), "shape %s" % (got.shape,))
        for i in range(2):
            ctx.eq("never accepted", Arr(got.a[i], "b"), Arr(T.FALSE, "b"))
    g = list(slices(False))
    pair = [g[0][1], g[1][1]]
    pat = ((True, False), (True, True))
    s, q = pair[0]["s"], pair[0]["q"]
    w = arr([p["w"] for p in pair], "c")
    for label, anchor, f in backends(ctx, w, rho, s, q)[:2]:
        with ctx.case("%s: each position is judged by its own images" % label, anchor):
            images(ctx, [[p["z"][k] for p in pair] for k in range(2)], [[p[k] for p in pat] for k in range(2)]), multi(ctx)
            got, kind = f()
            for i in range(2):
                judge(ctx, got, kind, accepted(pair[i]["w"], pair[i]["z"], pat[i], rho, Arr(T.sym("delta_%d" % i), "f"), s, q), i)
    with ctx.case("contour light curve, single lens", CA + "lightcurve:magnifications"):
        images(ctx, [[cx("za")], [cx("zb")]], [[True], [True]]), multi(ctx)
        ctx.it.intercepts[CA + "extended_source.mag:mag_extended_source"] = lambda b: Arr(T.sym("full"), "f", False, True)
        w = V("w", 1, real=False)
        got = A(ctx.call(CA + "lightcurve:magnifications", w, rho, nlenses=1))
        ok = M.compare(">", M.aabs(Arr(w.a[0], "c")), 2 * rho).item()
        ctx.eq("accepted beyond two source radii", Arr(got.a[0], "f"), Arr(T.ite(ok, T.sym("multi_0"), T.sym("full")), "f"))
