"""P15: FFT finite-source magnification of a single lens."""
from .common import *
from sa import extlib as X
from .p14 import sin, cos, log, exp, anyof, PI

FLOOR = 60
JX, NP = P + "fastlens.mag_fft_jax:", P + "fastlens.mag_fft:"
HJ, HN = P + "fastlens.fftlog_jax:hankel", P + "fastlens.fftlog:hankel"
H = Fraction(1, 2)
NINETY9 = Fraction(399, 200)


def const(x):
    p = nf.poly(A(x).item())
    if not p:
        return Fraction(0)
    if list(p) == [()] and isinstance(p[()], (int, Fraction)):
        return Fraction(p[()])
    if nf.batoms(p) or len(p) > 4 or any(nf.ATOMS[a].kind == "sym" for m in p for a, e in m):
        return None
    for j in [NINETY9] + list(range(-6, 7)):                 # decadic logarithms of powers of ten
        if nf.is_zero(nf.padd(p, nf.cst(j), -1)):
            return Fraction(j)
    return None


class Stage:
    """stand-ins: Hankel transforms (recorded, scripted outputs), Bessel functions, interpolation at known points"""

    def __init__(self, ctx, outputs):
        self.ctx, self.rec, self.out = ctx, [], list(outputs)
        it = ctx.it
        for h in (HJ, HN):
            it.intercepts[h + ".__init__"] = self.init
            it.intercepts[h + ".hankel"] = self.go
        for n in (0, 1):
            it.intercepts[P + "fastlens.special:j%d_" % n] = lambda b, n=n: self.each(list(b.values())[0], lambda x: bessel(n, x))
            it.ext_intercepts["scipy.special.j%d" % n] = lambda a, kw, n=n: self.each(a[0], lambda x: bessel(n, x))
        for n in ("jn", "jv"):
            it.ext_intercepts["scipy.special." + n] = self.jv
        it.intercepts[P + "fastlens.special:gamma_"] = lambda b: self.each(list(b.values())[0], halfgamma, 1)
        it.ext_intercepts["scipy.special.gamma"] = lambda a, kw: self.each(a[0], halfgamma)
        for n in ("ellipk", "ellipe"):
            it.intercepts[P + "fastlens.special:" + n] = lambda b, n=n: ell(n, list(b.values())[0])
            it.ext_intercepts["scipy.special." + n] = lambda a, kw, n=n: ell(n, a[0], True)
        for n in ("numpy.interp", "jax.numpy.interp"):
            it.ext_intercepts[n] = self.interp
        for n in ("numpy.log10", "jax.numpy.log10"):
            it.ext_intercepts[n] = lambda a, kw: self.log(a[0], A(1))
        for n in ("numpy.log", "jax.numpy.log"):
            it.ext_intercepts[n] = lambda a, kw: self.log(a[0], log(A(10)))

    def log(self, x, base):
        """the logarithm, with a stand-in value just below 2 for log10(99)"""
        def f(v):
            if const(v) == 99:
                return A(NINETY9) * base
            return log(v) / log(A(10)) * base
        return self.each(x, f)

    def init(self, b):
        b["self"].attrs["#"] = len(self.rec)
        self.rec.append({k: v for k, v in b.items() if k != "self"})

    def go(self, b):
        r = self.rec[b["self"].attrs["#"]]
        r["order"] = b["n"]
        if not self.out:
            raise M.Unsupported("more Hankel transforms than expected")
        return self.out.pop(0)

    def each(self, x, f, atleast=0):
        x = A(x)
        out = np.empty(x.shape or (1,) * atleast, dtype=object)
        for i, n in zip(np.ndindex(*out.shape), x.a.reshape(-1)):
            out[i] = f(Arr(n, "f")).item()
        r = Arr(out if out.shape else out[()], "f", False, x.traced, x.isnp)
        r.mask, r.parent = x.mask, x.parent
        return r

    def jv(self, a, kw):
        n = const(a[0])
        if n in (0, 1):
            return self.each(a[1], lambda x: bessel(int(n), x))
        if n == 2:
            return self.each(a[1], lambda x: 2 / x * bessel(1, x) - bessel(0, x))
        if n == Fraction(3, 2):
            return self.each(a[1], lambda x: M.sqrt(2 / (PI * x)) * (sin(x) / x - cos(x)))
        raise M.Unsupported("Bessel order %s" % n)

    def interp(self, a, kw):
        x, xp, fp = [A(v) for v in a[:3]]
        for scale in (A(1), log(A(10))):
            cx_, cp = [const(Arr(v, "f") / scale) for v in x.a.reshape(-1)], [const(Arr(v, "f") / scale) for v in xp.a]
            if None not in cp:
                break
        else:
            return M.interp(*a, **kw)
        l = kw.get("left", a[3] if len(a) > 3 else None)
        r = kw.get("right", a[4] if len(a) > 4 else None)
        other = lambda n: A(M.interp(Arr(n, "f"), xp, fp, *a[3:], **kw)).item()
        out = [lerp(v, cp, fp, l, r).item() if v is not None else other(n) for v, n in zip(cx_, x.a.reshape(-1))]
        o = np.empty(x.shape, dtype=object)
        o.reshape(-1)[:] = out
        z = Arr(o if o.shape else out[0], "f", False, x.traced or fp.traced, x.isnp)
        z.mask, z.parent = x.mask, x.parent
        return z


def lerp(v, xp, fp, left=None, right=None):
    g = lambda i: Arr(A(fp).a[i], "f")
    if v < xp[0]:
        return g(0) if left is None else A(left)
    if v > xp[-1]:
        return g(len(xp) - 1) if right is None else A(right)
    for i in range(len(xp) - 1, -1, -1):
        if v >= xp[i]:
            if i == len(xp) - 1 or v == xp[i]:
                return g(i)
            t = (v - xp[i]) / (xp[i + 1] - xp[i])
            return g(i) + A(t) * (g(i + 1) - g(i))


def bessel(n, x):
    return Arr(T.fn("BesselJ%d" % n, (x.item(),)), "f")


def ell(name, m, isnp=False):
    m = A(m)
    if m.shape:
        raise M.Unsupported("array elliptic argument")
    return Arr(T.fn(name, (m.item(),)), "f", False, m.traced, isnp or m.isnp)


def halfgamma(x):
    c = const(x)
    if c is None or c <= 0 or (2 * c).denominator != 1:
        raise M.Unsupported("gamma of %s" % c)
    r = A(1) if c.denominator == 1 else M.sqrt(PI)
    b = Fraction(1) if c.denominator == 1 else H
    while b < c:
        r = r * A(b)
        b += 1
    return r


# ---------------------------------------------------------------- reference formulas
def s_disk(x):
    return 2 * bessel(1, x) / x


def s_1(x):
    return 3 * (sin(x) - x * cos(x)) / x ** 3


def s_2(x):
    return 8 * (2 / x * bessel(1, x) - bessel(0, x)) / x ** 2


def mix(a1, d, l):
    """profile 1-a1(1-mu): disk of flux 1-a1, mu term of flux 2 a1/3"""
    return ((1 - a1) * d + 2 * a1 / 3 * l) / (1 - a1 / 3)


def c_disk(r):
    return M.sqrt(r * r + 4) / r


def c_1(r):
    m = -1 * r * r / 4
    return (2 * (r * r + 2) * ell("ellipe", m) - (r * r + 4) * ell("ellipk", m)) / r ** 3


def c_2(r):
    return (r * (r * r + 2) * M.sqrt(r * r + 4) - 8 * Arr(T.fn("arcsinh", ((r / 2).item(),)), "f")) / r ** 4


def point(u):
    return (u * u + 2) / (u * M.sqrt(u * u + 4))


A1 = Fraction(3, 10)
# name, module, class, constructor extras, per-call extras, profile, central value
def models():
    a = A(A1)
    both = lambda d, l: (lambda x: mix(a, d(x), l(x)))
    yield "JAX disk", JX + "magnification_disk", {}, [], s_disk, c_disk, True
    yield "JAX first-order limb term", JX + "magnification_limb1", {}, [], s_1, c_1, True
    yield "JAX second-order limb term", JX + "magnification_limb2", {}, [], s_2, c_2, True
    yield "JAX linear limb darkening", JX + "mag_limb1", {"a1": a}, [], both(s_disk, s_1), both(c_disk, c_1), True
    yield "JAX plain disk", JX + "mag_disk", {}, [a], s_disk, c_disk, False
    yield "JAX plain linear limb darkening", JX + "mag_limb", {}, [a], both(s_disk, s_1), both(c_disk, c_1), False
    yield "NumPy disk", NP + "magnification_disk", {}, [], s_disk, c_disk, True
    yield "NumPy first-order limb term", NP + "magnification_limb", {"n_limb": A(1)}, [], s_1, c_1, True
    yield "NumPy second-order limb term", NP + "magnification_limb", {"n_limb": A(2)}, [], s_2, c_2, True


def series(f, x):
    """acceptable small-argument forms of the profile terms"""
    return 1 - x * x / 10 + x ** 4 / 280


def run(ctx):
    ctx.rule("profiles: transform of the unit-flux source, 1 at zero frequency; central values: the same sources on the lens; Apk = 2 pi Hankel[u^2 (A_point-1)]; large source: 1 + Hankel[apk k^2 s(k rho) damping]/2 pi interpolated in log u, joined to 1 at u=100, central value at u=0; small source (rho < switch): 1 + Aext0(u/rho)/rho below u_switch*rho with Aext0 = Hankel[x s(x) damping], A_point above")
    ctx.assumptions.append("Hankel transforms are stand-ins (their correctness is P13), Bessel and elliptic functions likewise (P14); the integral kernels are compared on all grid points of the analysed grids")
    ku, ka = V("kgrid", 3, pos=True), V("apk", 3)
    eu, ea = V("egrid", 3, pos=True), V("aext", 3)
    fu = arr([A(Fraction(1, 100)), A(1), A(99), A(101), A(1000)])
    fa = V("afft", 5)

    def np_(a, m):
        return Arr(a.a, a.dt, False, False, m == NP)

    def build(ctx, ref, kw, small):
        m = NP if ref.startswith(NP) else JX
        outs = [(np_(ku, m), np_(ka, m))] + ([(np_(eu, m), np_(ea, m))] if small else []) + [(np_(fu, m), np_(fa, m))]
        st = Stage(ctx, outs)
        opt = dict(fft_logumin=A(-1), fft_logumax=A(2), N_fft=A(4))
        if small:
            opt.update(rho_switch=A(Fraction(1, 50)), u_switch=A(3))
        o = ctx.call(ref, **opt, **kw)
        need(ctx, st.rec, "hankel")
        if len(st.rec) != 1 + small:
            raise M.Unsupported("preparation uses %d Hankel transforms" % len(st.rec))
        return st, o, m

    def meth(ctx, o, name, *args):
        return A(ctx.it.call(ctx.it.getattr(o, name), list(args), {}))

    for name, ref, kw, extra, prof, central, small in models():
        fn = ref
        with ctx.case(name + ": Fourier profile", fn + ".sk"):
            st, o, m = build(ctx, ref, kw, small)
            t, r = pos("tk"), pos("rho")
            big, tiny = (t + 1) / r, A(Fraction(1, 2000))
            got = meth(ctx, o, "sk", np_(arr([big, A(0), big]), m), r, *extra)
            ctx.fact("shape", got.shape == (3,), "shape %s" % (got.shape,))
            for i in (0, 2):
                ctx.eq("profile", Arr(got.a[i], "f"), prof(t + 1))
            ctx.eq("unit flux at zero frequency", Arr(got.a[1], "f"), A(1))
            got = meth(ctx, o, "sk", np_(arr([tiny]), m), A(1), *extra)
            alt = [prof(tiny)]
            if "linear" in name:
                alt.append(mix(A(A1), s_disk(tiny), series(None, tiny)))
            anyof(ctx, "profile at small arguments", Arr(got.a[0], "f"), alt)
        with ctx.case(name + ": central value", fn + ".A0"):
            st, o, m = build(ctx, ref, kw, small)
            r = pos("rho")
            ctx.eq("A(0)", meth(ctx, o, "A0", r, *extra), central(r))
        with ctx.case(name + ": preparation", fn):
            st, o, m = build(ctx, ref, kw, small)
            b = st.rec[0]
            x = A(b["x"])
            ctx.fact("N_fft grid points", x.shape == (4,), "grid %s" % (x.shape,))
            for i in range(4):
                ctx.eq("logarithmic grid", Arr(x.a[i], "f"), A(Fraction(10) ** (i - 1)))
            for i in range(4):
                u = A(Fraction(10) ** (i - 1))
                ctx.eq("point-lens excess magnification", Arr(A(b["fx"]).a[i], "f"), (point(u) - 1) * u * u)
            ctx.eq("order", A(b["order"]), A(0))
            ctx.eq("bias", A(b["nu"]), A(Fraction(3, 2)))
            if small:
                b = st.rec[1]
                x, fx = A(b["x"]), A(b["fx"])
                ctx.eq("order", A(b["order"]), A(0))
                ctx.eq("bias", A(b["nu"]), A(Fraction(3, 2)))
                ctx.fact("one value per grid point", x.shape == fx.shape, "%s, %s" % (x.shape, fx.shape))
                n = x.size
                for i in sorted({0, 1, n // 3, n // 2, 2 * n // 3, n - 2, n - 1}):
                    v = Arr(x.a[i], "f")
                    d = exp(-1 * (v / 100) * (v / 100))
                    with_s = [v * prof(v) * d]
                    if "linear" in name:
                        with_s.append(v * mix(A(A1), s_disk(v), series(None, v)) * d)
                    anyof(ctx, "small-source kernel", Arr(fx.a[i], "f"), with_s)
        for big in ((True, False) if small else (True,)):
            us = [Fraction(0), Fraction(1, 10 ** 4), Fraction(1, 100), Fraction(-1, 10), Fraction(1, 10), Fraction(1), Fraction(10), Fraction(-10), Fraction(100), Fraction(10 ** 4)]
            rs = (Fraction(1, 2), Fraction(1, 50)) if big else (Fraction(1, 51), Fraction(1, 10 ** 5))
            for rho in rs:
                with ctx.case("%s: magnification, rho=%s" % (name, rho), fn + ".A"):
                    st, o, m = build(ctx, ref, kw, small)
                    n0 = len(st.rec)
                    u = np_(arr([A(v) for v in us]), m)
                    got = meth(ctx, o, "A", u, A(rho), *extra)
                    ctx.fact("shape", got.shape == (len(us),), "shape %s" % (got.shape,))
                    if big:
                        for b in st.rec[n0:]:
                            ctx.eq("frequency grid", A(b["x"]), ku)
                            ctx.eq("order", A(b["order"]), A(0))
                            ctx.eq("bias", A(b["nu"]), A(Fraction(3, 2)))
                        s = meth(ctx, o, "sk", np_(ku, m), A(rho), *extra)
                        for i in range(3) if len(st.rec) > n0 else ():
                            k = Arr(ku.a[i], "f")
                            d = k * rho / (2 * PI) / 20
                            ctx.eq("transformed excess times profile", Arr(A(b["fx"]).a[i], "f"), 2 * PI * Arr(ka.a[i], "f") * k * k * Arr(s.a[i], "f") * exp(-1 * d * d))
                        tab = [1 + Arr(fa.a[i], "f") / (2 * PI) for i in (0, 1, 2)] + [A(1)]
                        lg = {Fraction(10) ** j: j for j in range(-6, 7)}
                        for i, v in enumerate(us):
                            w = central(A(rho)) if v == 0 else lerp(Fraction(lg[abs(v)]), [-2, 0, NINETY9, 2], arr(tab), None, A(1))
                            ctx.eq("u=%s" % v, Arr(got.a[i], "f"), w)
                    else:
                        for i, v in enumerate(us):
                            if abs(v) < 3 * rho:
                                ref_ = A(M.interp(np_(arr([A(abs(v) / rho)]), m), np_(eu, m), np_(ea, m)))
                                w = Arr(ref_.a[0], "f") / rho + 1
                            else:
                                w = point(A(abs(v)))
                            ctx.eq("u=%s" % v, Arr(got.a[i], "f"), w)
        if small:
            with ctx.case("%s: small source inside and outside the switch radius" % name, fn + ".A"):
                st, o, m = build(ctx, ref, kw, small)
                rho = A(Fraction(1, 100))
                us = [Fraction(1, 100), Fraction(3, 100), Fraction(299, 10000), Fraction(301, 10000)]
                got = meth(ctx, o, "A", np_(arr([A(v) for v in us]), m), rho)
                for i, v in enumerate(us):
                    if v < Fraction(3, 100):
                        w = Arr(A(M.interp(np_(arr([A(v * 100)]), m), np_(eu, m), np_(ea, m))).a[0], "f") * 100 + 1
                        ctx.eq("u=%s" % v, Arr(got.a[i], "f"), w)
                    else:
                        ctx.eq("u=%s" % v, Arr(got.a[i], "f"), point(A(v)))
        with ctx.case(name + ": a single separation", fn + ".A"):
            st, o, m = build(ctx, ref, kw, small)
            got = meth(ctx, o, "A", A(Fraction(0)), A(H), *extra)
            ctx.eq("central value", got.reshape(()), central(A(H)))
