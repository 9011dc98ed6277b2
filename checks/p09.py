"""P09: custom derivative rules."""
from .common import *

FLOOR = 30
PS, B, LD, SP = P + "poly_solver:", P + "inverse_ray.boundary:", P + "inverse_ray.limb_darkening:", P + "fastlens.special:"


def rule_of(ctx, ref):
    f = ctx.it.get(ref)
    if not isinstance(f, I.CustomJVP):
        raise M.Unsupported("%s carries no hand-written rule any more" % ref)
    ctx.fact("a rule is attached", f.jvp is not None, "%s is a custom_jvp function without a rule; differentiation fails" % ref)
    if f.nondiff:
        raise M.Unsupported("non-differentiated arguments")
    return f


def apply_rule(ctx, f, primals, tangents):
    r = ctx.it.call(f.jvp, [tuple(primals), tuple(tangents)], {})
    ctx.fact("the rule returns a value and a tangent", isinstance(r, (tuple, list)) and len(r) == 2)
    return r


def key(f):
    g = f.fn
    return "%s:%s" % (g.mod.name, g.qual) if hasattr(g, "qual") else None


from sa.extlib import sigmoid


def dsigmoid(x):
    s = sigmoid(x)
    return s * (1 - s)


def stub(ctx, ref, name, dt="f"):
    """stand-in for a special function: elementwise opaque"""
    seen = []

    def h(b):
        x = A(list(b.values())[0])
        seen.append(x)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = T.fn(name, (T.tonum(x.a[i]),), real=(dt == "f"))
        return Arr(out, dt, False, True)
    ctx.it.intercepts[ref] = h
    return seen


def F(name, x, dt="f"):
    x = A(x)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = T.fn(name, (x.a[i],), real=(dt == "f"))
    return Arr(out, dt)


def run(ctx):
    ctx.rule("poly_roots_EA: dz_k = -(sum_j da_j z_k^(n-j)) / p'(z_k)  (implicit function theorem for p(z_k; a) = 0), whatever the starting guesses, tolerance and iteration cap")
    ctx.rule("Gamma' = Gamma digamma;  K' = (E-(1-m)K)/(2m(1-m));  E' = (E-K)/(2m);  J0' = -J1;  J1' = J0 - J1/x")
    ctx.rule("step_smooth, in_source, Is_limb_1st: derivative of 1[x>0] -> sigmoid(fac x), 1[d<rho] -> sigmoid(100(rho-d)/rho), I(d)1[d<1] -> I(d) sigmoid(100(1-d)) with mu floored at sqrt(1e-3); calc_facB: its own derivative below the threshold (2/3), optionally kept above")
    for n in (2, 3, 5) + ((10,) if ctx.thorough else ()):
        for real in (False, True):
            with ctx.case("roots of a degree-%d polynomial, %s coefficients" % (n, "real" if real else "complex"), PS + "poly_roots_EA"):
                f = rule_of(ctx, PS + "poly_roots_EA")
                c = V("c", n + 1, real=real)
                dc = V("dc", n + 1, real=real)
                z = V("z", n, real=False)
                seen = []

                def ea(b):
                    seen.append(b)
                    return z
                ctx.it.intercepts[PS + "poly_roots_EA"] = ea
                init, dinit = V("init", n, real=False), V("dinit", n, real=False)
                tol, it = pos("tol"), A(50)
                val, tan = apply_rule(ctx, f, (c, init, tol, it), (dc, dinit, S("dtol"), A(0)))
                need(ctx, seen, "poly_roots_EA")
                for b in seen:
                    ctx.eq("value: same polynomial", A(b["coeffs"]), c)
                    ctx.eq("value: same starting guesses", A(b["initial_roots"]), init)
                    ctx.eq("value: same tolerance", A(b["tol"]), tol)
                    ctx.eq("value: same iteration cap", A(b["max_iter"]), it)
                ctx.eq("value", A(val), z)
                num, den = [], []
                for k in range(n):
                    zk = Arr(z.a[k], "c")
                    dp, p = A(0), A(0)
                    for j in range(n + 1):
                        dp = dp + Arr(dc.a[j], "c") * zk ** (n - j)
                        if j < n:
                            p = p + (n - j) * Arr(c.a[j], "c") * zk ** (n - j - 1)
                    num.append(-1 * dp / p)
                ctx.eq("tangent", A(tan), arr(num, "c"))
    with ctx.case("gamma", SP + "gamma_"):
        f = rule_of(ctx, SP + "gamma_")
        x, dx = V("x", 3, real=False), V("dx", 3, real=False)
        s1 = stub(ctx, SP + "gamma_", "Gamma", "c")
        s2 = stub(ctx, SP + "digamma_", "Digamma", "c")
        val, tan = apply_rule(ctx, f, (x,), (dx,))
        need(ctx, s1, "gamma_")
        need(ctx, s2, "digamma_")
        ctx.eq("value", A(val), F("Gamma", x, "c"))
        ctx.eq("tangent", A(tan), F("Gamma", x, "c") * F("Digamma", x, "c") * dx)
    for nm in ("ellipk_", "ellipe_"):
        for shape in ((), (2,)):
            with ctx.case("%s, shape %s" % (nm, shape), SP + nm):
                f = rule_of(ctx, SP + nm)
                m, dm = (V("m", *shape, pos=True), V("dm", *shape)) if shape else (pos("m"), S("dm"))
                s1, s2 = stub(ctx, SP + "ellipk_", "EllK"), stub(ctx, SP + "ellipe_", "EllE")
                val, tan = apply_rule(ctx, f, (m,), (dm,))
                need(ctx, s1, "ellipk_")
                need(ctx, s2, "ellipe_")
                K, E = F("EllK", m), F("EllE", m)
                ctx.eq("value", A(val), K if nm == "ellipk_" else E)
                ctx.eq("tangent", A(tan), dm * ((E - (1 - m) * K) / (2 * m * (1 - m)) if nm == "ellipk_" else (E - K) / (2 * m)))
    for nm in ("j0_", "j1_"):
        for shape in ((), (2,)):
            with ctx.case("%s, shape %s" % (nm, shape), SP + nm):
                f = rule_of(ctx, SP + nm)
                x, dx = (V("x", *shape), V("dx", *shape)) if shape else (S("xr"), S("dxr"))
                s0, s1 = stub(ctx, SP + "j0_", "J0"), stub(ctx, SP + "j1_", "J1")
                val, tan = apply_rule(ctx, f, (x,), (dx,))
                need(ctx, s1, "j1_")
                J0, J1 = F("J0", x), F("J1", x)
                if nm == "j0_":
                    ctx.eq("value", A(val), J0)
                    ctx.eq("tangent", A(tan), -1 * J1 * dx)
                else:
                    ctx.eq("value", A(val), J1)
                    ctx.it.assume = {}
                    xd = x
                    nz = nonzero(tan, x)
                    ctx.eq("tangent away from the origin", nz, (J0 - J1 / xd) * dx)
    # ------------------------------------------------------------ surrogates
    with ctx.case("step_smooth: value and tangent", B + "step_smooth"):
        f = rule_of(ctx, B + "step_smooth")
        x, fac, dx, df = S("x"), S("fac"), S("dx"), S("df")
        val, tan = apply_rule(ctx, f, (x, fac), (dx, df))
        ctx.eq("value", A(val), Arr(T.ite(T.gt(x.item(), T.ZERO), T.ONE, T.ZERO), "f"))
        ctx.eq("tangent", A(tan), dsigmoid(x * fac) * (fac * dx + x * df))
    with ctx.case("step_smooth: the function is the hard step", B + "step_smooth"):
        x = S("x")
        ctx.eq("value", A(ctx.call(B + "step_smooth", x)), Arr(T.ite(T.gt(x.item(), T.ZERO), T.ONE, T.ZERO), "f"))
    dist, rho, dd, dr = pos("dist"), pos("rho"), S("ddist"), S("drho")
    hard = Arr(T.ite(T.lt(dist.item(), rho.item()), T.ONE, T.ZERO), "f")
    soft = sigmoid(100 * (rho - dist) / rho)
    with ctx.case("in_source: the function is the hard disk", B + "in_source"):
        ctx.eq("value", A(ctx.call(B + "in_source", dist, rho)), hard)
    with ctx.case("in_source: tangent of the surrogate", B + "in_source"):
        f = rule_of(ctx, B + "in_source")
        val, tan = apply_rule(ctx, f, (dist, rho), (dd, dr))
        ctx.eq("tangent", A(tan), dsigmoid(100 * (rho - dist) / rho) * 100 * (-1 * dd / rho + dist * dr / rho ** 2))
        ctx.fact("value is the disk indicator or its surrogate", ctx.same(val, hard) or ctx.same(val, soft), "the rule's value is %s" % T.show(A(val).item(), 8))
    with ctx.case("in_source: rule value equals the function", B + "in_source"):
        f = rule_of(ctx, B + "in_source")
        val, tan = apply_rule(ctx, f, (dist, rho), (dd, dr))
        ctx.eq("value", A(val), hard)
    with ctx.case("in_source on an array of distances", B + "in_source"):
        f = rule_of(ctx, B + "in_source")
        dv, ddv = V("dist", 2, pos=True), V("ddist", 2)
        val, tan = apply_rule(ctx, f, (dv, rho), (ddv, dr))
        ctx.eq("tangent", A(tan), dsigmoid(100 * (rho - dv) / rho) * 100 * (-1 * ddv / rho + dv * dr / rho ** 2))
    u1, du = S("u1"), S("du1")

    def limb(x, mu):
        return (1 - u1 * (1 - mu)) / (1 - u1 / 3) / A(T.PI)
    for shape in ((), (2,)):
        d, ddl = (V("dn", *shape, pos=True), V("ddn", *shape)) if shape else (pos("dn"), S("ddn"))
        mu = M.sqrt(maximum(A(Fraction(1, 1000)), 1 - d * d))
        sg, dsg = sigmoid(100 * (1 - d)), dsigmoid(100 * (1 - d)) * 100
        prof = limb(d, mu)
        # d/du1 of (1-u(1-mu))/(1-u/3)/pi and d/dd through mu and the sigmoid
        dprof_du = (-1 * (1 - mu) * (1 - u1 / 3) + (1 - u1 * (1 - mu)) / 3) / ((1 - u1 / 3) ** 2) / A(T.PI)
        dprof_dmu = u1 / (1 - u1 / 3) / A(T.PI)
        want = du * dprof_du * sg + ddl * (dprof_dmu * (-1 * d / mu) * sg - prof * dsg)
        exact = []
        for i in np.ndindex(*shape):
            di = Arr(d.a[i], "f")
            exact.append(T.ite(T.lt(di.item(), T.ONE), limb(di, M.sqrt(1 - di * di)).item(), T.ZERO))
        exact = arr(exact) if shape else Arr(exact[0], "f")
        with ctx.case("Is_limb_1st: tangent of the surrogate, shape %s" % (shape,), LD + "Is_limb_1st"):
            f = rule_of(ctx, LD + "Is_limb_1st")
            val, tan = apply_rule(ctx, f, (d, u1), (ddl, du))
            ctx.eq("tangent", A(tan), want)
            ctx.fact("value is the profile or its surrogate", ctx.same(val, exact) or ctx.same(val, prof * sg), "the rule's value is %s" % T.show(A(val).a.flat[0], 8))
        if not shape:
            with ctx.case("Is_limb_1st: rule value equals the function", LD + "Is_limb_1st"):
                f = rule_of(ctx, LD + "Is_limb_1st")
                val, tan = apply_rule(ctx, f, (d, u1), (ddl, du))
                ctx.eq("value", A(val), exact)
    with ctx.case("calc_facB: value", B + "calc_facB"):
        f = rule_of(ctx, B + "calc_facB")
        x, c, dx, dc = pos("gap"), pos("thr"), S("dgap"), S("dthr")
        val, tan = apply_rule(ctx, f, (x, c), (dx, dc))
        ctx.eq("value", A(val), ctx.call(B + "calc_facB", x, c))
    with ctx.case("calc_facB: tangent", B + "calc_facB"):
        f = rule_of(ctx, B + "calc_facB")
        x, c, dx, dc = pos("gap"), pos("thr"), S("dgap"), S("dthr")
        val, tan = apply_rule(ctx, f, (x, c), (dx, dc))
        flat = A(Fraction(2, 3)) * dx
        sq = M.sqrt(1 + 1 / (2 * x))
        big = A(Fraction(2, 3)) * dx * (sq + (Fraction(1, 2) + x) * (-1 / (2 * x * x)) / (2 * sq))
        full = Arr(T.ite(T.gt(x.item(), c.item()), big.item(), flat.item()), "f")
        ctx.fact("tangent", ctx.same(tan, flat) or ctx.same(tan, full), "tangent is %s; required 2/3 d(gap), or the derivative of the function itself" % T.show(A(tan).item(), 8))


def maximum(a, b):
    b = A(b)
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape):
        out[i] = T.fn("max", (A(a).item(), b.a[i]))
    return Arr(out, "f")


def nonzero(tan, x):
    """the branch of a guarded result taken when x is not zero"""
    tan, x = A(tan), A(x)
    out = np.empty(tan.shape, dtype=object)
    for i in np.ndindex(*tan.shape):
        n, v = tan.a[i], x.a[i]
        if n.op == "ite":
            c = n.args[0]
            if c is T.eq(v, T.ZERO):
                n = n.args[2]
            elif c is T.ne(v, T.ZERO):
                n = n.args[1]
        out[i] = n
    return Arr(out, "f")
