"""P03: critical curves and caustics."""
from .common import *
from .p02 import proportional, capture

FLOOR = 40
PS = P + "point_source"


def public_params(nl):
    """(keyword arguments, masses, mid-frame positions, shift to the centre of mass)

    The public (s, q, q3) are written through a, d, t so that the mass fractions
    and the shift are polynomials: q=(1-d)/(1+d), masses t(1-d)/2, t(1+d)/2, 1-t.
    Every physical (s, q, q3) is reached by some (a, d, t)."""
    if nl == 1:
        return {}, [A(1)], [A(0)], A(0)
    a, d = pos("a"), S("d")
    s, q = 2 * a, (1 - d) / (1 + d)
    if nl == 2:
        return dict(s=s, q=q), [(1 - d) / 2, (1 + d) / 2], [a, -a], a * d
    t, r3, psi = pos("t"), pos("r3"), S("psi")
    q3 = 2 * (1 - t) / (t * (1 + d))
    return dict(s=s, q=q, q3=q3, r3=r3, psi=psi), [t * (1 - d) / 2, t * (1 + d) / 2, 1 - t], [a, -a, r3 * cis(psi)], a * d


def run(ctx):
    ctx.rule("the polynomial solved at phase sample j is (a nonzero factor times) prod(z-z_i)^2 exp(-i phi_j) - sum m_i prod_{k!=i}(z-z_k)^2 with phi = linspace(-pi, pi, npts); returned critical points are exactly its roots plus the centre-of-mass shift, returned caustic points are the lens map of the same entry plus the same shift")
    ctx.assumptions.append("the branch-matching permutation is abstracted by an arbitrary fixed permutation per sample (its own contract is P22)")
    for nl in (2, 3):
        for npts in ((3, 5) if not ctx.thorough else (2, 3, 5, 8)):
            with ctx.case("critical curves and caustics, %d lenses, %d phase samples" % (nl, npts), PS + ":critical_and_caustic_curves"):
                kw, ms, ps, xcm = public_params(nl)
                got = capture(ctx)
                matched = []

                def mp(b):
                    x, y = A(b["a"]), A(b["b"])
                    n = y.shape[0]
                    k = len(matched) + 1
                    perm = [(i + k) % n for i in range(n)]
                    if k % 2:
                        perm.reverse()
                    matched.append((x, y, perm))
                    return Arr(np.array([T.num(p) for p in perm], dtype=object), "i", False, True)
                ctx.it.intercepts["microjax.utils:match_points"] = mp
                zc, za = ctx.call(PS + ":critical_and_caustic_curves", npts=npts, nlenses=nl, **kw)
                if not got:
                    raise M.Unsupported("poly_roots is not reached")
                ctx.fact("one polynomial solve", len(got) == 1, "%d calls of poly_roots" % len(got))
                c, r, b = got[0]
                deg = 2 * nl
                ctx.fact("one polynomial per phase", c.shape == (npts, deg + 1), "coefficients have shape %s" % (c.shape,))
                phi = M.linspace(-1 * A(T.PI), A(T.PI), npts)
                for j in range(npts):
                    ph = Arr(T.exp(T.mul(T.num(-1), T.I, phi.a[j])), "c")
                    proportional(ctx, "phase sample %d" % j, [Arr(c.a[j, k], "c") for k in range(deg + 1)], critical_polynomial(ph, ms, ps))
                zc, za = A(zc), A(za)
                ctx.fact("shapes (N_branches, npts)", zc.shape == (deg, npts) and za.shape == (deg, npts), "%s and %s" % (zc.shape, za.shape))
                for j in range(npts):
                    rts = [Arr(r.a[j, k], "c") for k in range(deg)]
                    used = []
                    for k in range(deg):
                        x = Arr(zc.a[k, j], "c")
                        hit = [i for i in range(deg) if i not in used and ctx.same(x - rts[i], xcm)]
                        ctx.fact("critical point [%d,%d] is a root plus the centre-of-mass shift" % (k, j), bool(hit), "value %s" % T.show(x.item(), 6)[:600], x.item().loc)
                        used.append(hit[0])
                        ctx.eq("caustic point [%d,%d] is the image of its critical point" % (k, j), Arr(za.a[k, j], "c"), lens_map(rts[hit[0]], ms, ps) + xcm)
                # each sample is matched to the previous one, in the order already reported
                if matched:
                    for x, y, perm in matched:
                        js = [j for j in range(npts) if all(y.a[k] is r.a[j, k] for k in range(deg))]
                        ctx.fact("matching acts on one sample's roots", bool(js), "match_points receives something else")
                        j = js[0]
                        prev = Arr(zc.a[:, max(j - 1, 0)], "c")
                        if j > 0:
                            for k in range(deg):
                                ctx.eq("sample %d is matched to the reported order of sample %d" % (j, j - 1), Arr(x.a[k], "c") + xcm, Arr(prev.a[k], "c"))
    for npts in (3, 4):
        with ctx.case("single lens, %d samples" % npts, PS + ":critical_and_caustic_curves"):
            zc, za = ctx.call(PS + ":critical_and_caustic_curves", npts=npts, nlenses=1)
            phi = M.linspace(-1 * A(T.PI), A(T.PI), npts)
            zc, za = A(zc), A(za)
            zc, za = M.ravel(zc), M.ravel(za)
            for j in range(npts):
                ctx.eq("Einstein ring", Arr(zc.a[j], "c") * M.conj(Arr(zc.a[j], "c")), A(1))
                ctx.eq("phase", Arr(zc.a[j], "c"), cis(-1 * phi.a[j] if isinstance(phi.a[j], Arr) else T.neg(phi.a[j])))
                ctx.eq("point caustic", Arr(za.a[j], "c"), A(0))
    for nl in (0, 4):
        with ctx.case("unsupported lens count %d refused" % nl, PS + ":critical_and_caustic_curves"):
            kw, ms, ps, xcm = public_params(3)
            ctx.raises("lens count %d" % nl, "ValueError", lambda: ctx.call(PS + ":critical_and_caustic_curves", npts=3, nlenses=nl, **kw))
