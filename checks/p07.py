"""P07: adaptive light curves."""
import itertools

from .common import *
from .p02 import capture
from .p03 import public_params

FLOOR = 200
PS, IR, CA, MP = P + "point_source", P + "inverse_ray.", P + "caustics.", P + "multipole"
LC = IR + "lightcurve:"


def stand_ins(ctx, nl, tests):
    """arbitrary images, multipole values and full solutions; `tests` are the outcomes of the accuracy tests"""
    capture(ctx, None, distinct=1)

    def full(b):
        c = b.get("w_center", b.get("w0"))
        if c is None:
            raise M.Unsupported("the finite-source solver no longer takes its source centre as w_center/w0")
        return Arr(opaque("full", None, [c]), "f", False, True)
    for f in (IR + "extended_source:mag_uniform", IR + "extended_source:mag_limb_dark", CA + "extended_source.mag:mag_extended_source"):
        ctx.it.intercepts[f] = full

    def hexa(b):
        n = A(b["z"]).shape[1:]
        z = A(b["z"])
        out = np.empty(n, dtype=object), np.empty(n, dtype=object)
        for i in np.ndindex(*n):
            zi = [Arr(z.a[(k,) + i], "c") for k in range(z.shape[0])]
            for o, nm in zip(out, ("multi", "delta")):
                o[i] = opaque(nm, None, zi[:1])
        return Arr(out[0], "f", False, True), Arr(out[1], "f", False, True)
    ctx.it.intercepts[MP + ":mag_hexadecapole"] = hexa
    for mod in (IR + "cond_extended:", CA + "lightcurve:"):
        for k, f in enumerate(("_caustics_proximity_test", "_planetary_caustic_test")):
            ctx.it.intercepts[mod + f] = lambda b, k=k: tests[k]


def const_test(p):
    return Arr(np.array([T.TRUE if x else T.FALSE for x in p], dtype=object), "b", False, True)


def run(ctx):
    ctx.shapes_matter = ("cannot reshape",)
    ctx.rule("with the accuracy tests, the multipole and the full solver as arbitrary functions: result[i] = multi(w_i) if test[i] or fewer-than-budget refinement did not reach i, else full(w_i); the first MAX_FULL_CALLS failing positions (in order) are refined; checked for every outcome pattern of the tests and for batch sizes above, below and not dividing the number of refined points")
    ctx.assumptions.append("finite trajectories of 1 to 4 (thorough: 5) positions; the code is uniform in the length")
    rho = pos("rho")
    for nl, fn in ((2, "mag_binary"), (3, "mag_triple")):
        kw, ms, ps, xcm = public_params(nl)
        sizes = (1, 3, 4) + ((5,) if ctx.thorough else ())
        for u1 in (0, Fraction(1, 4)):
            for n in sizes:
                w = V("w", n, real=False)
                plans = [(m, c) for m in sorted({0, 1, 2, n, n + 3}) for c in (1, 2, 3, 100)]
                if not ctx.thorough:
                    plans = [p for p in plans if p[1] in (2, 3)] + [(n + 3, 100), (2, 1)]
                if u1 != 0:
                    plans = plans[:4]
                for maxc, chunk in plans:
                    pats = list(itertools.product((True, False), repeat=n)) if nl == 2 else [(False,) * n]
                    with ctx.case("%s, u1=%s, %d positions, budget %d, batches of %d" % (fn, u1, n, maxc, chunk), LC + fn):
                        for pat in pats:
                            stand_ins(ctx, nl, (const_test(pat), A(True)))
                            mags = A(ctx.call(LC + fn, w + xcm, rho, u1=u1 if u1 == 0 else A(u1), MAX_FULL_CALLS=maxc, chunk_size=chunk, **kw))
                            ctx.fact("one value per position", mags.shape == (n,), "result has shape %s for %d positions" % (mags.shape, n))
                            left = maxc
                            for i in range(n):
                                if not pat[i] and left > 0:
                                    left -= 1
                                    want = opaque("full", None, [Arr(w.a[i], "c") + xcm])
                                else:
                                    want = multi(ctx, nl, n, i)
                                ctx.eq("position %d, tests %s" % (i, "".join("+-"[not x] for x in pat)), Arr(mags.a[i], "f"), Arr(want, "f"))
    with ctx.case("mag_binary: the planetary test only counts below q=0.01", LC + "mag_binary"):
        for q in (Fraction(1, 1000), Fraction(99, 10000), Fraction(101, 10000), Fraction(1, 2), 1):
            kw = dict(s=S("s"), q=A(q))
            for p1, p2 in itertools.product(itertools.product((True, False), repeat=2), repeat=2):
                stand_ins(ctx, 2, (const_test(p1), const_test(p2)))
                w = V("w", 2, real=False)
                mags = A(ctx.call(LC + "mag_binary", w, rho, MAX_FULL_CALLS=2, chunk_size=2, **kw))
                for i in range(2):
                    test = p1[i] and (p2[i] or q >= Fraction(1, 100))
                    ctx.eq("position %d, q=%s, tests %s %s" % (i, q, p1, p2), Arr(mags.a[i], "f"), Arr(multi(ctx, 2, 2, i) if test else opaque("full", None, [Arr(w.a[i], "c")]), "f"))
    for nl in (1, 2, 3):
        with ctx.case("contour light curve, %d lenses" % nl, CA + "lightcurve:magnifications"):
            if nl == 1:
                kw, xcm = {}, A(0)
            else:
                kw, ms, ps, xcm = public_params(nl)
            t1, t2 = BV("t1", 3), BV("t2", 3)
            stand_ins(ctx, nl, (t1, t2))
            w = V("w", 3, real=False)
            mags = A(ctx.call(CA + "lightcurve:magnifications", w + xcm, rho, nlenses=nl, **kw))
            ctx.fact("one value per position", mags.shape == (3,), "shape %s" % (mags.shape,))
            for i in range(3):
                wi = Arr(w.a[i], "c")
                full = opaque("full", None, [wi + xcm])
                if nl == 1:
                    test = M.compare(">", M.aabs(wi), 2 * rho).item()
                    img = M.ravel(A(ctx.call(PS + ":_images_point_source", Arr(w.a[i:i + 1], "c"), nlenses=1)[0]))
                    want = T.ite(test, opaque("multi", None, [Arr(img.a[0], "c")]), full)
                elif nl == 2:
                    small = T.lt(A(kw["q"]).item(), T.num(Fraction(1, 100)))
                    want = T.ite(T.ite(small, T.band(t1.a[i], t2.a[i]), t1.a[i]), multi(ctx, 2, 3, i), full)
                else:
                    want = full
                ctx.eq("position %d" % i, Arr(mags.a[i], "f"), Arr(want, "f"))


def multi(ctx, nl, n, i):
    root = Arr(T.sym("root0_%d_0" % i, False), "c")
    sh = A(0)
    if nl == 3:
        from .p05 import images_origin
        kw, ms, ps, xcm = public_params(nl)
        sh = images_origin(nl, ms, ps)
    return opaque("multi", None, [root + sh])
