"""P08: options reach the stage they name."""
from .common import *
from .p02 import capture
from .p03 import public_params
from .p05 import regions

FLOOR = 100
PS, IR, CA, MP = P + "point_source", P + "inverse_ray.", P + "caustics.", P + "multipole"
F = Fraction
OPT = dict(r_resolution=7, th_resolution=11, Nlimb=13, bins_r=17, bins_th=19, margin_r=F(23, 10), margin_th=F(29, 10))


def same_value(ctx, label, got, want):
    if isinstance(want, (bool, str)) or want is None:
        ctx.fact(label, got is want or got == want, "it receives %r, the caller asked for %r" % (got, want))
        return
    if got is None:
        raise M.Unsupported("%s: the stage no longer has this parameter" % label)
    ctx.eq(label, A(got), A(want))


def run(ctx):
    ctx.rule("each option is given a value of its own; the bound argument of the stage it names (ray-shooting solver, region builder, brightness profile, edge factor, limb sampler, contour integral, multipole) must be that value, and grid sizes and limb samples are counted at the lens-map and root-finder calls")
    rho, u1, dc = pos("rho"), S("u1"), pos("delta_c")
    for nl in (2, 3):
        kw, ms, ps, xcm = public_params(nl)
        lc = "mag_binary" if nl == 2 else "mag_triple"
        for ld in (0, 1):
            with ctx.case("%s, %s source" % (lc, "limb-darkened" if ld else "uniform"), IR + "lightcurve:" + lc):
                capture(ctx, None, distinct=1)
                called = []
                for f in ("mag_uniform", "mag_limb_dark"):
                    ctx.it.intercepts[IR + "extended_source:" + f] = lambda b, f=f: (called.append((f, b)), Arr(opaque("full", None, []), "f", False, True))[1]
                hexa = []

                def hexh(b):
                    hexa.append(b)
                    n = A(b["z"]).shape[1:]
                    return opaque_arr("multi", 0, [], n), opaque_arr("delta", 0, [], n)
                ctx.it.intercepts[MP + ":mag_hexadecapole"] = hexh
                for f in ("_caustics_proximity_test", "_planetary_caustic_test"):
                    ctx.it.intercepts[IR + "cond_extended:" + f] = lambda b: BV("t", *A(b["w"]).shape)
                u = A(F(3, 8)) if ld else 0
                opts = dict(OPT)
                opts.update(delta_c=F(31, 100))
                ctx.call(IR + "lightcurve:" + lc, V("w", 2, real=False), rho, u1=u, MAX_FULL_CALLS=2, chunk_size=2,
                         **{k: (v if isinstance(v, int) else A(v)) for k, v in opts.items()}, **kw)
                need(ctx, called, "the ray-shooting solver")
                want = "mag_limb_dark" if ld else "mag_uniform"
                for f, b in called:
                    ctx.fact("solver for this profile", f == want, "u1=%s is handed to %s" % (F(3, 8) if ld else 0, f))
                    for k, v in OPT.items():
                        same_value(ctx, "%s of %s" % (k, f), b.get(k), v)
                    if ld:
                        same_value(ctx, "delta_c", b.get("delta_c"), opts["delta_c"])
                        same_value(ctx, "u1", b.get("u1"), F(3, 8))
                    same_value(ctx, "rho", b.get("rho"), rho)
                    same_value(ctx, "nlenses", b.get("nlenses"), nl)
                need(ctx, hexa, "mag_hexadecapole")
                for b in hexa:
                    same_value(ctx, "u1 of the multipole", b.get("u1"), F(3, 8) if ld else 0)
                    same_value(ctx, "rho of the multipole", b.get("rho"), rho)
                    same_value(ctx, "nlenses of the multipole", b.get("nlenses"), nl)
        for fn in ("mag_uniform", "mag_limb_dark"):
            with ctx.case("%s, %d lenses" % (fn, nl), IR + "extended_source:" + fn):
                got = capture(ctx, None, distinct=1)
                reg, rays, prof, edge = [], [], [], []
                ctx.it.intercepts[IR + "merge_area:define_regions"] = regions(reg)

                def ins(b):
                    rays.append(b)
                    return V("in%d" % len(rays), *A(b["distances"]).shape)
                ctx.it.intercepts[IR + "boundary:in_source"] = ins
                ctx.it.intercepts[IR + "extended_source:cubic_interp"] = lambda b: opaque_arr("crossing", None, [], A(b["x1"]).shape)
                ctx.it.intercepts[IR + "limb_darkening:Is_limb_1st"] = lambda b: (prof.append(b), V("profile", *A(b["d"]).shape))[1]
                ctx.it.intercepts[IR + "boundary:calc_facB"] = lambda b: (edge.append(b), opaque_arr("factor", None, [], A(b["delta_B"]).shape))[1]
                ld = fn == "mag_limb_dark"
                opts = dict(OPT, **(dict(u1=u1, delta_c=dc) if ld else {}))
                ctx.call(IR + "extended_source:" + fn, cx("w"), rho, nlenses=nl, **{k: (v if isinstance(v, (int, Arr)) else A(v)) for k, v in opts.items()}, **kw)
                need(ctx, got, "poly_roots")
                ctx.fact("Nlimb limb points are solved", got[0][0].shape[0] == OPT["Nlimb"] if got[0][0].ndim == 2 else False, "coefficients of shape %s for Nlimb=%d" % (got[0][0].shape, OPT["Nlimb"]))
                need(ctx, reg, "define_regions")
                for k in ("bins_r", "bins_th", "margin_r", "margin_th"):
                    same_value(ctx, "%s of the region builder" % k, reg[0].get(k), OPT[k])
                same_value(ctx, "nlenses of the region builder", reg[0].get("nlenses"), nl)
                same_value(ctx, "rho of the region builder", reg[0].get("rho"), rho)
                need(ctx, rays, "in_source")
                n = sum(A(b["distances"]).size if hasattr(A(b["distances"]), "size") else A(b["distances"]).a.size for b in rays)
                ctx.fact("r_resolution radii are shot", len(rays) == OPT["r_resolution"] or n == OPT["r_resolution"] * OPT["th_resolution"], "%d radii, %d rays" % (len(rays), n))
                ctx.fact("th_resolution angles are shot", n == OPT["r_resolution"] * OPT["th_resolution"], "%d rays for %d x %d" % (n, OPT["r_resolution"], OPT["th_resolution"]))
                for b in rays:
                    same_value(ctx, "rho of the membership test", b["rho"], rho)
                if ld:
                    need(ctx, prof, "Is_limb_1st")
                    need(ctx, edge, "calc_facB")
                    for b in prof:
                        same_value(ctx, "u1 of the profile", b.get("u1"), u1)
                    for b in edge:
                        same_value(ctx, "delta_c of the edge factor", b.get("delta_c"), dc)
    for nl in (1, 2, 3):
        kw, xcm = ({}, A(0)) if nl == 1 else (lambda t: (t[0], t[3]))(public_params(nl))
        for ld in (False, True):
            with ctx.case("contour light curve, %d lenses, limb darkening %s" % (nl, ld), CA + "lightcurve:magnifications"):
                capture(ctx, None, distinct=1)
                full, hexa = [], []
                ctx.it.intercepts[CA + "extended_source.mag:mag_extended_source"] = lambda b: (full.append(b), Arr(opaque("full", None, []), "f", False, True))[1]

                def hexh(b):
                    hexa.append(b)
                    n = A(b["z"]).shape[1:]
                    return opaque_arr("multi", 0, [], n), opaque_arr("delta", 0, [], n)
                ctx.it.intercepts[MP + ":mag_hexadecapole"] = hexh
                for f in ("_caustics_proximity_test", "_planetary_caustic_test"):
                    ctx.it.intercepts[CA + "lightcurve:" + f] = lambda b: BV("t", *A(b["w"]).shape)
                ctx.call(CA + "lightcurve:magnifications", V("w", 2, real=False), rho, nlenses=nl, npts_limb=37, npts_ld=41, u1=u1, limb_darkening=ld, **kw)
                need(ctx, full, "mag_extended_source")
                for b in full:
                    for k, v in dict(npts_limb=37, npts_ld=41, u1=u1, limb_darkening=ld, rho=rho, nlenses=nl, **kw).items():
                        same_value(ctx, k, b.get(k), v)
                for b in hexa:
                    same_value(ctx, "u1 of the multipole", b.get("u1"), u1 if ld else 0)
                    same_value(ctx, "rho of the multipole", b.get("rho"), rho)
                    same_value(ctx, "nlenses of the multipole", b.get("nlenses"), nl)
            with ctx.case("contour magnification, %d lenses, limb darkening %s" % (nl, ld), CA + "extended_source.mag:mag_extended_source"):
                limb, unif, lds = [], [], []

                def limbh(b):
                    limb.append(b)
                    n = {1: 2, 2: 5, 3: 10}[nl]
                    return V("z", n, 4, real=False), BV("m", n, 4), V("p", n, 4)
                ctx.it.intercepts[CA + "extended_source.limb:_images_of_source_limb"] = limbh
                ctx.it.intercepts[CA + "extended_source.segments:_get_segments"] = lambda b: (V("seg", 2, 2, 4, real=False), V("open", 2, 2, 4, real=False), A(True))
                ctx.it.intercepts[CA + "extended_source.contours:_contours_from_closed_segments"] = lambda b: (V("con", 2, 4, real=False), V("par", 2))
                ctx.it.intercepts[CA + "extended_source.contours:_contours_from_open_segments"] = lambda b: (V("ocon", 3, 4, real=False), V("opar", 3))
                ctx.it.intercepts[CA + "integrate:_integrate_ld"] = lambda b: (lds.append(b), Arr(opaque("int", None, list(b.values())[:1]), "f", False, True))[1]
                ctx.it.intercepts[CA + "integrate:_integrate_unif"] = lambda b: (unif.append(b), Arr(opaque("int", None, list(b.values())[:1]), "f", False, True))[1]
                ctx.call(CA + "extended_source.mag:mag_extended_source", cx("w"), rho, nlenses=nl, npts_limb=37, npts_ld=41, limb_darkening=ld, u1=u1, **kw)
                need(ctx, limb, "_images_of_source_limb")
                for b in limb:
                    same_value(ctx, "npts of the limb sampler", b.get("npts"), 37)
                    same_value(ctx, "rho of the limb sampler", b.get("rho"), rho)
                    same_value(ctx, "nlenses of the limb sampler", b.get("nlenses"), nl)
                need(ctx, lds + unif, "a contour integral")
                ctx.fact("integral of the requested profile", bool(lds) == ld and bool(unif) != ld, "uniform integral %d times, limb-darkened %d times" % (len(unif), len(lds)))
                for b in lds:
                    for k, v in dict(u1=u1, npts=41, rho=rho, nlenses=nl).items():
                        same_value(ctx, "%s of the contour integral" % k, b.get(k), v)
