"""P02: the image polynomials are the lens equation with conj(z) eliminated."""
from .common import *

FLOOR = 60
CO = P + "coeffs"
PS = P + "point_source"


def squares(f):
    """positive: a sum of squared moduli with positive weights, one of them constant"""
    for m, c in f.items():
        d = dict(m)
        if not (isinstance(c, (int, Fraction)) and c > 0):
            return False
        for a, e in m:
            at = nf.ATOMS[a]
            if at.pos or (at.real and e == int(e) and int(e) % 2 == 0):
                continue
            k = [((b, 1),) for b in d if b != a and nf.conj_poly({((a, 1),): 1}) == {((b, 1),): 1} and d[b] == e]
            if at.real or not k:
                return False
    return () in f


def poles(c, source):
    """denominators of a coefficient that some source position makes zero"""
    p = nf.poly(c.item())
    if nf.batoms(p):
        return []
    w = set()
    for s in source:
        w |= set(nf.atoms_of(nf.poly(s.item())))
    num, den = nf.frac(p)
    bad = []
    for f in [f for f, e in den if nf.atoms_of(f) & w] + [{((a, 1),): 1} for m in num for a, e in m if e < 0 and a in w]:
        sides = [[a for a in nf.atoms_of(f) if a in nf.atoms_of(nf.poly(s.item()))] for s in source]
        if not all(sides):
            bad.append(f)       # a non-constant polynomial of w (or of conj w) alone has zeros
        elif not squares(f) and not squares(nf.pneg(f)):
            raise M.Unsupported("a denominator of the coefficients is not settled")
    return bad


def proportional(ctx, label, code, spec, source=()):
    """code = c * spec for one common nonzero, finite factor c (lists, highest degree first)"""
    code = list(code)
    ctx.fact(label + ": degree %d" % (len(spec) - 1), len(code) == len(spec), "the polynomial has %d coefficients, the lens equation %d" % (len(code), len(spec)))
    ctx.fact(label + ": factor is nonzero", not ctx.same(code[0], 0), "leading coefficient vanishes identically", code[0].item().loc)
    for sgn in (1, -1):
        if ctx.same(code[0], sgn * spec[0]):
            for k in range(len(spec)):
                ctx.eq("%s: coefficient of z^%d" % (label, len(spec) - 1 - k), code[k], sgn * spec[k])
            return
    for k in range(len(spec)):
        ctx.fact("%s: coefficient of z^%d is finite at every source position" % (label, len(spec) - 1 - k), not poles(code[k], source), "the common factor is infinite at some source positions, where every image is lost", code[k].item().loc)
        ctx.eq("%s: coefficient of z^%d (cross-multiplied)" % (label, len(spec) - 1 - k), code[k] * spec[0], spec[k] * code[0])


def capture(ctx, shift=None, distinct=99):
    """stand-in for the root finder: arbitrary roots (optionally named relative to a known origin)"""
    got = []

    def h(b):
        c = A(b["coeffs"])
        n = c.shape[-1] - 1
        r = np.empty(c.shape[:-1] + (n,), dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = T.sym("root%d_%s" % (len(got), "_".join(map(str, i[:-1] + (min(i[-1], distinct - 1),)))), False)
        r = Arr(r, "c", False, True)
        if shift is not None:
            r = Arr((r - shift).a, "c", False, True)
        got.append((c, r, b))
        return r
    ctx.it.intercepts["microjax.poly_solver:poly_roots"] = h
    return got


def run(ctx):
    ctx.rule("the coefficient list that reaches poly_roots is (a nonzero factor times) the polynomial obtained by substituting conj(z) from the conjugated lens equation and clearing denominators, in the shifted origin that is added back to the roots; compared coefficient by coefficient as polynomials in (w, conj w, a, r3, conj r3, masses)")
    ctx.assumptions.append("real arithmetic: floating rounding of the expanded coefficients is not modelled")
    from .p01 import params
    for nl in (2, 3):
        for shape in ((), (2,)):
            with ctx.case("polynomial solved for the images, %d lenses, shape %s" % (nl, shape), PS + ":_images_point_source"):
                kw, ms, ps = params(nl)
                if nl == 3:
                    ms, ps = lens_masses(3, kw["e1"], kw["e2"]), lens_positions(3, kw["a"], kw["r3"], kw["psi"])
                w = V("w", *shape, real=False) if shape else cx("w")
                got = capture(ctx)
                z, m = ctx.call(PS + ":_images_point_source", w, nlenses=nl, **kw)
                if not got:
                    raise M.Unsupported("poly_roots is not reached")
                ctx.fact("one polynomial solve", len(got) == 1, "%d calls of poly_roots" % len(got))
                c, r, b = got[0]
                ctx.fact("polynomials batched like the sources", c.shape[:-1] == shape, "coefficient shape %s" % (c.shape,))
                z = A(z)
                ctx.fact("one image per root", z.shape == (r.shape[-1],) + shape, "image array has shape %s" % (z.shape,))
                for i in np.ndindex(*shape):
                    ri = [Arr(r.a[i + (k,)], "c") for k in range(r.shape[-1])]
                    zi = [Arr(z.a[(k,) + i], "c") for k in range(r.shape[-1])]
                    sh = zi[0] - ri[0]
                    for k in range(len(ri)):
                        ctx.eq("image %d is root %d plus the common origin" % (k, k), zi[k] - ri[k], sh)
                    w_ = Arr(w.a[i], "c") if shape else w
                    spec = image_polynomial(w_ - sh, ms, [p - sh for p in ps])
                    proportional(ctx, "source %s" % (i,), [Arr(c.a[i + (k,)], "c") for k in range(c.shape[-1])], spec, (w_, M.conj(w_)))
    for nl, fn in ((3, "_poly_coeffs_triple"),):     # not on the solving path, but published next to it
        for shape in ((), (2,)):
            with ctx.case("%s, shape %s" % (fn, shape), CO + ":" + fn):
                a, e1, e2, r3 = S("a"), S("e1"), S("e2"), cx("r3")
                w = V("w", *shape, real=False) if shape else cx("w")
                sh = A(0)
                if nl == 2:
                    c = ctx.call(CO + ":" + fn, w, a, e1)
                    ms, ps = [e1, 1 - e1], [a, -a]
                else:
                    c = ctx.call(CO + ":" + fn, w, a, r3, e1, e2)
                    ms, ps = [e1, e2, 1 - e1 - e2], [a, -a, r3]
                    if fn.endswith("_CM"):
                        c, sh = c
                c = A(c)
                for i in np.ndindex(*shape):
                    w_ = Arr(w.a[i], "c") if shape else w
                    spec = image_polynomial(w_ - sh, ms, [p - sh for p in ps])
                    proportional(ctx, "source %s" % (i,), [Arr(c.a[i + (k,)], "c") for k in range(c.shape[-1])], spec, (w_, M.conj(w_)))

