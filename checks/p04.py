"""P04: point-source magnification."""
from .common import *
from .p01 import params
from .p02 import capture
from .p03 import public_params

FLOOR = 60
PS = P + "point_source"
TOL = {2: Fraction(1, 10**6), 3: Fraction(1, 10**3)}


def residual_ok(z, w, ms, ps, nl):
    r = lens_map(z, ms, ps) - w
    return M.compare("<", M.aabs(r), A(TOL[nl]))


def origin(nl, ms, ps):
    """a convenient way to name the arbitrary roots (the claim holds for any)"""
    return A(0) if nl == 2 else ms[0] * ps[0] + ms[1] * ps[1] + ms[2] * ps[2]


def ind(m):
    """0/1 of a boolean"""
    return Arr(T.ite(A(m).item(), T.ONE, T.ZERO), "f")


def single_images(w):
    rr = M.real(w * M.conj(w))
    root = M.sqrt(1 + 4 / rr)
    return [w / 2 * (1 + root), w / 2 * (1 - root)]


def run(ctx):
    ctx.rule("images are the candidate roots (plus origin), flagged genuine exactly when |lens_eq(z)-w| of the same lens and source is below 1e-6 / 1e-3; mag_point_source = sum_k flag_k / |det J(z_k)| with the source shifted to the mid-point frame once, and has the shape of w")
    ctx.assumptions.append("the root finder is abstracted by arbitrary candidate roots (its own contract is P10)")
    shapes = [(), (1,), (2,)] + ([(2, 2)] if ctx.thorough else [])
    for nl in (2, 3):
        for shape in shapes:
            with ctx.case("candidate images and their flags, %d lenses, shape %s" % (nl, shape), PS + ":_images_point_source"):
                kw, ms, ps = params(nl)
                w = V("w", *shape, real=False) if shape else cx("w")
                got = capture(ctx, origin(nl, ms, ps))
                z, m = ctx.call(PS + ":_images_point_source", w, nlenses=nl, **kw)
                if len(got) != 1:
                    raise M.Unsupported("poly_roots called %d times" % len(got))
                z, m = A(z), A(m)
                n = got[0][1].shape[-1]
                ctx.fact("shapes", z.shape == (n,) + shape and m.shape == z.shape, "%s, %s" % (z.shape, m.shape))
                for i in np.ndindex(*z.shape):
                    wi = Arr(w.a[i[1:]], "c") if shape else w
                    ctx.eq("flag of candidate %s" % (i,), ind(m.a[i] if m.a[i].isbool else T.gt(m.a[i], T.ZERO)), ind(residual_ok(Arr(z.a[i], "c"), wi, ms, ps, nl)))
        for shape in (shapes if nl == 2 or ctx.thorough else [(), (2,)]):
            with ctx.case("magnification, %d lenses, shape %s" % (nl, shape), PS + ":mag_point_source"):
                kw, ms, ps, xcm = public_params(nl)
                w = V("w", *shape, real=False) if shape else cx("w")
                got = capture(ctx, origin(nl, ms, ps), distinct=5 if nl == 2 or ctx.thorough else 2)
                mag = A(ctx.call(PS + ":mag_point_source", w + xcm, nlenses=nl, **kw))
                if len(got) != 1:
                    raise M.Unsupported("poly_roots called %d times" % len(got))
                c, r, b = got[0]
                ctx.fact("shape of the result", mag.shape == shape, "magnification has shape %s for sources of shape %s" % (mag.shape, shape))
                sh = origin(nl, ms, ps)
                for i in np.ndindex(*shape):
                    wi = Arr(w.a[i], "c") if shape else w
                    tot = A(0)
                    for k in range(r.shape[-1]):
                        z = Arr(r.a[i + (k,)], "c") + sh
                        tot = tot + ind(residual_ok(z, wi, ms, ps, nl)) / M.aabs(det_jac(z, ms, ps))
                    ctx.eq("magnification of source %s" % (i,), Arr(mag.a[i], "f"), tot)
    for shape in shapes:
        w = V("w", *shape, real=False) if shape else cx("w")
        with ctx.case("single lens, shape %s" % (shape,), PS + ":mag_point_source"):
            z, m = ctx.call(PS + ":_images_point_source", w, nlenses=1)
            z, m = A(z), A(m)
            ctx.fact("two images", z.shape == (2,) + shape and m.shape == z.shape, "shapes %s %s" % (z.shape, m.shape))
            mag = A(ctx.call(PS + ":mag_point_source", w, nlenses=1))
            ctx.fact("shape of the result", mag.shape == shape, "shape %s" % (mag.shape,))
            for i in np.ndindex(*shape):
                wi = Arr(w.a[i], "c") if shape else w
                zs = single_images(wi)
                a = [Arr(z.a[(k,) + i], "c") for k in (0, 1)]
                if not ctx.same(a[0], zs[0]):
                    a = a[::-1]
                for k in (0, 1):
                    ctx.eq("image %d" % k, a[k], zs[k])
                    ctx.eq("image %d always counts" % k, ind(m.a[(k,) + i]), A(1))
                tot = A(0)
                for k in (0, 1):
                    tot = tot + 1 / M.aabs(det_jac(zs[k], [A(1)], [A(0)]))
                ctx.eq("magnification", Arr(mag.a[i], "f"), tot)
    for nl in (0, 4):
        for fn in ("mag_point_source", "_images_point_source"):
            with ctx.case("unsupported lens count %d refused by %s" % (nl, fn), PS + ":" + fn):
                kw = dict(params(3)[0], **public_params(3)[0])
                ctx.raises("lens count %d" % nl, "ValueError", lambda: ctx.call(PS + ":" + fn, cx("w"), nlenses=nl, **kw))
    with ctx.case("custom starting guesses change nothing but the start, 2 lenses", PS + ":_images_point_source"):
        kw, ms, ps = params(2)
        w = cx("w")
        got = capture(ctx)
        zi = V("guess", 5, real=False)
        z, m = ctx.call(PS + ":_images_point_source", w, nlenses=2, custom_init=True, z_init=zi, **kw)
        z, m = A(z), A(m)
        ctx.fact("guesses reach the root finder", got[0][2].get("custom_init") is True and got[0][2].get("roots_init") is not None, "custom_init=%r" % (got[0][2].get("custom_init"),))
        ctx.eq("guesses", M.ravel(A(got[0][2]["roots_init"])), zi)
        for k in range(5):
            ctx.eq("flag", ind(m.a[k]), ind(residual_ok(Arr(z.a[k], "c"), w, ms, ps, 2)))
    with ctx.case("sequential tracking returns each source's own images, 2 lenses", PS + ":_images_point_source_sequential"):
        kw, ms, ps = params(2)
        w = V("w", 3, real=False)
        got = capture(ctx)
        z, m = ctx.call(PS + ":_images_point_source_sequential", w, nlenses=2, **kw)
        z, m = A(z), A(m)
        ctx.fact("shape (N_images, w.size)", z.shape == (5, 3) and m.shape == (5, 3), "shapes %s %s" % (z.shape, m.shape))
        for k in range(5):
            for j in range(3):
                ctx.eq("flag", ind(m.a[k, j]), ind(residual_ok(Arr(z.a[k, j], "c"), Arr(w.a[j], "c"), ms, ps, 2)))
        for j in (1, 2):
            g = got[j][2].get("roots_init")
            ctx.fact("guesses reach the root finder", got[j][2].get("custom_init") is True and g is not None, "step %d starts afresh" % j)
            ctx.eq("step %d starts from the previous images" % j, M.ravel(A(g)), Arr(z.a[:, j - 1], "c"))
