"""P05: one convention for masses, positions and frame."""
from .common import *
from .p02 import capture, proportional
from .p03 import public_params

FLOOR = 60
PS, IR, CA, MP = P + "point_source", P + "inverse_ray.", P + "caustics.", P + "multipole"


def images_origin(nl, ms, ps):
    return A(0) if nl == 2 else ms[0] * ps[0] + ms[1] * ps[1] + ms[2] * ps[2]


def solved_for(ctx, label, c, w, ms, ps, origin):
    proportional(ctx, label, [Arr(c.a[k], "c") for k in range(c.shape[-1])], image_polynomial(w - origin, ms, [p - origin for p in ps]))


def regions(log):
    def h(b):
        log.append(b)
        return Arr(np.array([[T.sym("r_lo"), T.sym("r_hi")]], dtype=object), "f", False, True), Arr(np.array([[T.sym("th_lo"), T.sym("th_hi")]], dtype=object), "f", False, True)
    return h


def run(ctx):
    ctx.rule("for (s, q[, q3, r3, psi]) each solver reaches: image polynomials of the lens {q, 1, q3}/(sum) at {+s/2, -s/2, r3 e^{i psi}} for the source shifted by s/2 (1-q)/(1+q) exactly once; ray/limb/contour maps with that same lens; images handed to the polar grid in the centre-of-mass frame")
    for nl in (2, 3):
        kw, ms, ps, xcm = public_params(nl)
        org = images_origin(nl, ms, ps)
        w = cx("w")
        with ctx.case("point source, %d lenses" % nl, PS + ":mag_point_source"):
            got = capture(ctx, org, distinct=2)
            ctx.call(PS + ":mag_point_source", w + xcm, nlenses=nl, **kw)
            need(ctx, got, "poly_roots")
            solved_for(ctx, "image polynomial", got[0][0], w, ms, ps, org)
        with ctx.case("critical curves, %d lenses" % nl, PS + ":critical_and_caustic_curves"):
            got = capture(ctx)
            ctx.it.intercepts[P + "utils:match_points"] = lambda b: Arr(np.array([T.num(i) for i in range(A(b["b"]).shape[0])], dtype=object), "i", False, True)
            zc, za = ctx.call(PS + ":critical_and_caustic_curves", npts=2, nlenses=nl, **kw)
            need(ctx, got, "poly_roots")
            r = got[0][1]
            for k in range(2 * nl):
                z = Arr(r.a[0, k], "c")
                ctx.eq("critical point in the centre-of-mass frame", Arr(A(zc).a[k, 0], "c"), z + xcm)
                ctx.eq("caustic point in the centre-of-mass frame", Arr(A(za).a[k, 0], "c"), lens_map(z, ms, ps) + xcm)
        rho = pos("rho")
        for fn in ("mag_uniform", "mag_limb_dark"):
            with ctx.case("ray shooting %s, %d lenses" % (fn, nl), IR + "extended_source:" + fn):
                got = capture(ctx, org, distinct=2)
                reg, dist = [], []
                ctx.it.intercepts[IR + "merge_area:define_regions"] = regions(reg)

                def ins(b):
                    dist.append((A(b["distances"]), b["rho"]))
                    return opaque_arr("inside", len(dist), [], A(b["distances"]).shape)
                ctx.it.intercepts[IR + "boundary:in_source"] = ins
                ctx.it.intercepts[IR + "extended_source:cubic_interp"] = lambda b: opaque_arr("crossing", None, [], A(b["x1"]).shape)
                ctx.it.intercepts[IR + "limb_darkening:Is_limb_1st"] = lambda b: opaque_arr("profile", None, [], A(b["d"]).shape)
                ctx.it.intercepts[IR + "boundary:calc_facB"] = lambda b: opaque_arr("factor", None, [], A(b["delta_B"]).shape)
                extra = dict(u1=S("u1")) if fn == "mag_limb_dark" else {}
                ctx.call(IR + "extended_source:" + fn, w + xcm, rho, nlenses=nl, r_resolution=2, th_resolution=6, Nlimb=3, **kw, **extra)
                need(ctx, got, "poly_roots")
                need(ctx, reg, "define_regions")
                c, r, _ = got[0]
                for j in range(3):
                    solved_for(ctx, "limb point %d" % j, Arr(c.a[j], "c"), w + rho * cis(A(T.mul(T.num(2), T.PI)) * j / 2), ms, ps, org)
                img = A(reg[0]["image_limb"])
                want = r + org + xcm
                if img.shape != want.shape:
                    want = M.transpose(want)
                ctx.eq("images of the limb in the centre-of-mass frame", img, want)
                ctx.eq("source radius of the regions", A(reg[0]["rho"]), rho)
                need(ctx, dist, "in_source")
                k = 0
                for d, rr in dist:
                    ctx.eq("source radius", A(rr), rho)
                    ctx.fact("six angles per radius", d.shape == (6,), "distances have shape %s" % (d.shape,))
                    ri = T.sym("r_lo") if k == 0 else T.sym("r_hi")
                    for j in range(6 if k == 0 and nl == 2 else 2):
                        th = A(T.sym("th_lo")) + (A(T.sym("th_hi")) - A(T.sym("th_lo"))) * j / 5
                        z = A(ri) * cis(th) - xcm
                        ctx.eq("ray %d,%d is mapped by the same lens in the same frame" % (k, j), Arr(d.a[j], "f"), M.aabs(lens_map(z, ms, ps) - w))
                    k += 1
        lc = "mag_binary" if nl == 2 else "mag_triple"
        for u1 in (0, Fraction(1, 4)):
            with ctx.case("adaptive light curve %s, u1=%s" % (lc, u1), IR + "lightcurve:" + lc):
                got = capture(ctx, org, distinct=1)
                full, hexa, tests = [], [], []

                def fullh(b):
                    full.append(b)
                    return opaque("full", None, [b.get("w_center")])
                ctx.it.intercepts[IR + "extended_source:mag_uniform"] = lambda b: Arr(fullh(b), "f", False, True)
                ctx.it.intercepts[IR + "extended_source:mag_limb_dark"] = lambda b: Arr(fullh(b), "f", False, True)

                def hexh(b):
                    hexa.append(b)
                    n = A(b["z"]).shape[1:]
                    return opaque_arr("multi", 0, [], n), opaque_arr("delta", 0, [], n)
                ctx.it.intercepts[MP + ":mag_hexadecapole"] = hexh

                def testh(b):
                    tests.append(b)
                    return BV("test%d" % len(tests), *A(b["w"]).shape)
                ctx.it.intercepts[IR + "cond_extended:_caustics_proximity_test"] = testh
                ctx.it.intercepts[IR + "cond_extended:_planetary_caustic_test"] = testh
                wv = V("w", 2, real=False)
                ctx.call(IR + "lightcurve:" + lc, wv + xcm, rho, u1=u1 if u1 == 0 else A(u1), MAX_FULL_CALLS=2, chunk_size=2, **kw)
                need(ctx, got, "poly_roots")
                need(ctx, full, "the finite-source solver")
                need(ctx, hexa, "mag_hexadecapole")
                for j in range(2):
                    solved_for(ctx, "source %d" % j, Arr(got[0][0].a[j], "c"), Arr(wv.a[j], "c"), ms, ps, org)
                for b in full:
                    for k, v in kw.items():
                        ctx.eq("finite-source solver receives %s" % k, A(b[k]), A(v))
                    ctx.eq("lens count", A(b["nlenses"]), A(nl))
                for b in hexa:
                    same_lens(ctx, "multipole uses the same lens", nl, b, ms, ps)
                    ctx.eq("lens count", A(b["nlenses"]), A(nl))
                    zi = M.moveaxis(got[0][1] + org, -1, 0)
                    ctx.eq("multipole receives the images in the mid-point frame", A(b["z"]), zi)
                for b in tests:
                    same_lens(ctx, "acceptance test uses the same lens", nl, b, ms, ps)
                    ctx.eq("acceptance test looks at the shifted source", A(b["w"]), wv)
        for ld in (False, True):
            with ctx.case("contour magnification, %d lenses, limb darkening %s" % (nl, ld), CA + "extended_source.mag:mag_extended_source"):
                limb, ints = [], []

                class Stop(Exception):
                    pass

                def limbh(b):
                    limb.append(b)
                    same_lens(ctx, "limb images use the same lens", nl, b, ms, ps)
                    ctx.eq("source centre in the mid-point frame", A(b["w0"]), w)
                    ctx.eq("source radius", A(b["rho"]), rho)
                    n = {2: 5, 3: 10}[nl]
                    return V("z", n, 4, real=False), BV("m", n, 4), V("p", n, 4)

                def seg(b):
                    n = 2
                    s = V("seg", n, 2, 4, real=False)
                    return s, V("open", n, 2, 4, real=False), A(True)

                def ldh(b):
                    ints.append(b)
                    return Arr(opaque("int", None, list(b.values())[:1]), "f", False, True)
                ctx.it.intercepts[CA + "extended_source.limb:_images_of_source_limb"] = limbh
                ctx.it.intercepts[CA + "extended_source.segments:_get_segments"] = seg
                ctx.it.intercepts[CA + "extended_source.contours:_contours_from_closed_segments"] = lambda b: (V("con", 2, 4, real=False), V("par", 2))
                ctx.it.intercepts[CA + "extended_source.contours:_contours_from_open_segments"] = lambda b: (V("ocon", 3, 4, real=False), V("opar", 3))
                ctx.it.intercepts[CA + "integrate:_integrate_ld"] = ldh
                ctx.it.intercepts[CA + "integrate:_integrate_unif"] = ldh
                ctx.call(CA + "extended_source.mag:mag_extended_source", w + xcm, rho, nlenses=nl, limb_darkening=ld, u1=S("u1"), **kw)
                need(ctx, limb, "_images_of_source_limb")
                if ld:
                    need(ctx, ints, "_integrate_ld")
                    for b in ints:
                        same_lens(ctx, "limb-darkened integral uses the same lens", nl, b, ms, ps)
                        ctx.eq("source centre of the integral", A(b["w0"]), w)
        with ctx.case("contour light curve, %d lenses" % nl, CA + "lightcurve:magnifications"):
            got = capture(ctx, org, distinct=1)
            full, hexa, tests = [], [], []

            def fullh(b):
                full.append(b)
                return Arr(opaque("full", None, [b.get("w0")]), "f", False, True)
            ctx.it.intercepts[CA + "extended_source.mag:mag_extended_source"] = fullh

            def hexh(b):
                hexa.append(b)
                n = A(b["z"]).shape[1:]
                return opaque_arr("multi", 0, [], n), opaque_arr("delta", 0, [], n)
            ctx.it.intercepts[MP + ":mag_hexadecapole"] = hexh

            def testh(b):
                tests.append(b)
                return BV("test%d" % len(tests), *A(b["w"]).shape)
            ctx.it.intercepts[CA + "lightcurve:_caustics_proximity_test"] = testh
            ctx.it.intercepts[CA + "lightcurve:_planetary_caustic_test"] = testh
            wv = V("w", 2, real=False)
            ctx.call(CA + "lightcurve:magnifications", wv + xcm, rho, nlenses=nl, **kw)
            need(ctx, got, "poly_roots")
            need(ctx, full, "mag_extended_source")
            for j in range(2):
                solved_for(ctx, "source %d" % j, Arr(got[0][0].a[j], "c"), Arr(wv.a[j], "c"), ms, ps, org)
            for b in full:
                for k, v in kw.items():
                    ctx.eq("contour solver receives %s" % k, A(b[k]), A(v))
                ctx.eq("lens count", A(b["nlenses"]), A(nl))
            for b in hexa + tests:
                same_lens(ctx, "multipole and tests use the same lens", nl, b, ms, ps)
            for b in hexa:
                ctx.eq("multipole receives the images in the mid-point frame", A(b["z"]), M.moveaxis(got[0][1] + org, -1, 0))
            for b in tests:
                ctx.eq("acceptance test looks at the shifted source", A(b["w"]), wv)
