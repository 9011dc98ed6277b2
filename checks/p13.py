"""P13: FFTLog in both back ends."""
from .common import *
from sa import extlib as X

FLOOR = 100
JX, NP = P + "fastlens.fftlog_jax:", P + "fastlens.fftlog:"
BACK = (("JAX", JX), ("NumPy", NP))


def log(x):
    return Arr(M.log_node(A(x).item()), "f")


def gam(x):
    x = A(x)
    return Arr(T.fn("Gamma", (x.item(),), real=False), "c")


def stub_gamma(ctx):
    def h(b):
        x = A(list(b.values())[0] if isinstance(b, dict) else b[0])
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = T.fn("Gamma", (T.tonum(x.a[i]),), real=False)
        r = Arr(out, "c", False, x.traced, x.isnp)
        r.mask, r.parent = x.mask, x.parent
        return r
    ctx.it.intercepts[P + "fastlens.special:gamma_"] = h
    for n in ("scipy.special.gamma", "jax.scipy.special.gamma"):
        ctx.it.ext_intercepts[n] = lambda args, kw: h(args)


# ---------------------------------------------------------------- reference formulas
def ratio(mu, q):
    """Gamma((mu+1+q)/2) / Gamma((mu+1-q)/2), Stirling form when |Im q| + |mu| > 200, zero where the denominator has its pole"""
    p, m = (mu + 1 + q) / 2, (mu + 1 - q) / 2
    good = gam(p) / gam(m)
    h = Fraction(1, 2)
    asym = cexp((p - h) * clog(p) - (m - h) * clog(m) - q + (1 / p - 1 / m) / 12 + (1 / m ** 3 - 1 / p ** 3) / 360 + (1 / p ** 5 - 1 / m ** 5) / 1260)
    big = T.gt((M.aabs(M.imag(q)) + M.aabs(A(mu))).item(), T.num(200))
    pole = M.compare("==", q, A(mu) + 1).item()
    return Arr(T.ite(pole, T.ZERO, T.ite(big, asym.item(), good.item())), "c")


def half_ratio(a):
    """Gamma(a)/Gamma(a+1/2), Stirling form when |Im a| > 100"""
    h = Fraction(1, 2)
    b = a + h
    good = gam(a) / gam(b)
    asym = cexp((a - h) * clog(a) - a * clog(b) + h + (1 / a - 1 / b) / 12 + (1 / b ** 3 - 1 / a ** 3) / 360 + (1 / a ** 5 - 1 / b ** 5) / 1260)
    big = T.gt(M.aabs(M.imag(a)).item(), T.num(100))
    return Arr(T.ite(big, asym.item(), good.item()), "c")


def clog(x):
    return Arr(M.log_node(A(x).item()), "c")


def cexp(x):
    return Arr(T.exp(A(x).item()), "c")


def two(z):
    return cexp(z * log(A(2)))


def kernel(kind, l, z):
    """sqrt(pi)/4 times this is the Mellin transform int x^(z-1) k(x) dx of k = j_l, j_l', j_l'', j_l^2"""
    h = A(l) + Fraction(1, 2)
    if kind == "fftlog":
        return two(z) * ratio(h, z - Fraction(3, 2))
    if kind == "fftlog_dj":
        return -1 * two(z - 1) * (z - 1) * ratio(h, z - Fraction(5, 2))
    if kind == "fftlog_ddj":
        return two(z - 2) * (z - 1) * (z - 2) * ratio(h, z - Fraction(7, 2))
    return ratio(2 * A(l) + 1, z - 2) * half_ratio((2 - z) / 2)


KIND = ("fftlog", "fftlog_dj", "fftlog_ddj", "fftlog_jsqr")
FN = {"fftlog": "g_l", "fftlog_dj": "g_l_1", "fftlog_ddj": "g_l_2", "fftlog_jsqr": "h_l"}


def window(m, last, cut):
    right = last - cut
    if m <= right:
        return A(1)
    th = A(Fraction(last - m, last - right - 1))
    return th - X._sin(2 * A(T.PI) * th) / (2 * A(T.PI))


def transform(kind, ell, x, f, lnr, nu, low, high, pad, width):
    """x, f lists; lnr = log of the constant ratio of consecutive x"""
    def ext(v, lo, hi):
        a, b = v[1] / v[0], v[-1] / v[-2]
        return [v[0] * a ** k for k in range(-lo, 0)] + list(v) + [v[-1] * b ** k for k in range(1, hi + 1)]
    x, f = ext(x, low, high), ext(f, low, high)
    if pad:
        x, f = ext(x, pad, pad), [A(0)] * pad + f + [A(0)] * pad
        low, high = low + pad, high + pad
    if len(x) % 2:
        x, f = x[:-1], f[:-1]
        if pad:
            high -= 1
    N = len(x)
    fb = [p * cexp(-1 * nu * log(q)) for p, q in zip(f, x)]
    cut = int(Fraction(width) * N // 2)
    rt = lambda k: cexp(Arr(T.mul(T.I, T.PI, T.num(Fraction(2 * k, N))), "c"))
    y = [(A(ell) + 1) / v for v in reversed(x)]
    h = []
    for m in range(N // 2 + 1):
        c = A(0)
        for j in range(N):
            c = c + fb[j] * rt(-((m * j) % N))
        c = c * window(m, N // 2, cut)
        ie = Arr(T.num(0, 90 * m), "c")       # i eta_m, eta_m = 2 pi m / (N lnr)
        h.append(M.conj(c * cexp(-1 * ie * log(x[0] * y[0])) * kernel(kind, ell, nu + ie)))
    out = []
    for j in range(N):
        s = M.real(h[0])
        for m in range(1, N // 2):
            t = h[m] * rt((m * j) % N)
            s = s + t + M.conj(t)
        s = s + M.real(h[N // 2]) * (-1) ** j
        out.append(s / N * cexp(-1 * nu * log(y[j])) * M.sqrt(A(T.PI)) / 4)
    return y[high:N - low], out[high:N - low]


def data(n, lnr, isnp):
    x0 = pos("xo")
    xs = [x0 * cexp(lnr * i) for i in range(n)]
    fs = [pos("f_%d" % i) for i in range(n)]
    X_ = arr(xs)
    F_ = arr(fs)
    X_.isnp = F_.isnp = isnp
    return xs, fs, X_, F_


def grid_log(ctx, lnr):
    """the logarithm of the ratio of neighbouring grid points is the constant lnr"""
    def h(args, kw):
        x = A(args[0])
        if x.ndim == 0 and ctx.same(x, cexp(lnr)):
            return Arr(lnr.item(), "f", False, x.traced, x.isnp)
        return M.like(M.emap(M.log_node, x.a), x)
    ctx.it.ext_intercepts["numpy.log"] = ctx.it.ext_intercepts["jax.numpy.log"] = h


def run(ctx):
    ctx.shapes_matter = ("incompatible shapes", "cannot reshape")
    ctx.rule("c_m = window(m) rfft(f x^-nu), h_m = c_m (x_0 y_0)^(-i eta_m) K(nu + i eta_m), F = irfft(conj h) y^-nu sqrt(pi)/4, y = (l+1)/reversed x, eta_m = 2 pi m/(N dlnx); trimmed to the original points")
    ctx.rule("K from the Mellin transforms of j_l, j_l', j_l'', j_l^2; Gamma ratios switch to the Stirling form beyond |Im q|+|mu| = 200 and |Im a| = 100")
    ctx.rule("both back ends are compared with the same reference expression; Gamma is an uninterpreted function here (its own formula is P14)")
    ctx.assumptions.append("the transform is compared for log grids of up to 8 points; the expression per output point is otherwise uniform in N")
    nu = A(Fraction(11, 10))
    for name, mod in BACK:
        isnp = mod is NP
        # ---- kernels pointwise
        for l in (0, 2) + ((Fraction(-1, 2), Fraction(1, 2), 5) if ctx.thorough else (Fraction(1, 2),)):
            for kind in KIND:
                with ctx.case("%s kernel of %s, l=%s" % (name, kind, l), mod + FN[kind]):
                    stub_gamma(ctx)
                    ims = sorted({Fraction(0), Fraction(7, 3), Fraction(100), Fraction(199), Fraction(200), Fraction(201), Fraction(400),
                                  Fraction(200) - abs(Fraction(l) + Fraction(1, 2)), Fraction(200) - abs(2 * Fraction(l) + 1), Fraction(-150), Fraction(-300)})
                    z = arr([nu + Arr(T.num(0, t), "c") for t in ims], "c")
                    z.isnp = isnp
                    got = A(ctx.call(mod + FN[kind], A(l), z))
                    ctx.fact("shape", got.shape == (len(ims),), "shape %s" % (got.shape,))
                    for k, t in enumerate(ims):
                        ctx.eq("kernel at Im z = %s" % t, Arr(got.a[k], "c"), kernel(kind, l, Arr(z.a[k], "c")))
        with ctx.case("%s kernel at the zero of 1/Gamma" % name, mod + "g_m_vals"):
            stub_gamma(ctx)
            mu = A(Fraction(3, 2))
            q = arr([A(Fraction(5, 2)), A(Fraction(1, 2))], "c")
            q.isnp = isnp
            got = A(ctx.call(mod + "g_m_vals", mu, q))
            ctx.eq("zero", Arr(got.a[0], "c"), A(0))
            ctx.eq("neighbour", Arr(got.a[1], "c"), ratio(mu, A(Fraction(1, 2))))
        # ---- window
        for n, cut in ((5, 0), (5, 2), (6, 3), (9, 4), (9, 9)):
            with ctx.case("%s window, %d coefficients, %d smoothed" % (name, n, cut), mod + "c_window"):
                mm = Arr(np.array([T.num(i) for i in range(n)] + [None], dtype=object)[:-1], "i")
                mm.isnp = isnp
                got = A(ctx.call(mod + "c_window", mm, cut))
                for i in range(n):
                    ctx.eq("weight %d" % i, Arr(got.a[i], "f"), window(i, n - 1, cut))
        # ---- extrapolation
        for lo, hi in ((0, 0), (2, 0), (0, 3), (1, 2)):
            with ctx.case("%s extrapolation by %d and %d points" % (name, lo, hi), mod + "log_extrap"):
                v = V("xe", 3, pos=True, isnp=isnp)
                got = A(ctx.call(mod + "log_extrap", v, lo, hi))
                e = [Arr(t, "f") for t in v.a]
                want = [e[0] * (e[1] / e[0]) ** k for k in range(-lo, 0)] + e + [e[2] * (e[2] / e[1]) ** k for k in range(1, hi + 1)]
                ctx.eq("points", got, arr(want))
        # ---- full transforms
        plans = [(6, 0, 0, 0, "0.75"), (5, 0, 0, 0, "0.25"), (4, 1, 1, 0, "0.75"), (4, 0, 0, 1, "0.75"), (4, 1, 2, 1, "0.75")]
        if ctx.thorough:
            plans += [(5, 0, 0, 1, "0.75"), (4, 2, 2, 0, "0.75"), (8, 0, 0, 0, "0.75"), (3, 0, 1, 2, "0.75")]
        for n, lo, hi, pad, width in plans:
            for kind in KIND if (n, lo, hi, pad) == (6, 0, 0, 0) or ctx.thorough else KIND[:1]:
                with ctx.case("%s %s, %d points, extrapolation %d/%d, padding %d" % (name, kind, n, lo, hi, pad), mod + "fftlog"):
                    stub_gamma(ctx)
                    N = n + lo + hi + 2 * pad
                    N -= N % 2
                    lnr = 2 * A(T.PI) / (N * 90)          # eta_m = 90 m: covers both branches of the kernel
                    xs, fs, X_, F_ = data(n, lnr, isnp)
                    grid_log(ctx, lnr)
                    obj = ctx.call(mod + "fftlog", X_, F_, nu=nu, N_extrap_low=lo, N_extrap_high=hi, c_window_width=A(Fraction(width)), N_pad=pad)
                    y, F = ctx.it.call(ctx.it.getattr(obj, kind), [A(2)], {})
                    wy, wF = transform(kind, 2, xs, fs, lnr, nu, lo, hi, pad, width)
                    ctx.eq("y", A(y), arr(wy))
                    ctx.eq("F", A(F), arr(wF))
        with ctx.case("%s default options" % name, mod + "fftlog"):
            stub_gamma(ctx)
            lnr = 2 * A(T.PI) / (6 * 90)
            xs, fs, X_, F_ = data(6, lnr, isnp)
            grid_log(ctx, lnr)
            obj = ctx.call(mod + "fftlog", X_, F_)
            y, F = ctx.it.call(ctx.it.getattr(obj, "fftlog"), [A(0)], {})
            wy, wF = transform("fftlog", 0, xs, fs, lnr, nu, 0, 0, 0, "0.25")
            ctx.eq("y", A(y), arr(wy))
            ctx.eq("F", A(F), arr(wF))
        for n in (0, 1, 2):
            with ctx.case("%s Hankel transform of order %d" % (name, n), mod + "hankel"):
                stub_gamma(ctx)
                lnr = 2 * A(T.PI) / (4 * 90)
                xs, fs, X_, F_ = data(4, lnr, isnp)
                grid_log(ctx, lnr)
                obj = ctx.call(mod + "hankel", X_, F_, nu, N_extrap_low=0, N_extrap_high=0, c_window_width=A(Fraction(1, 4)), N_pad=0)
                y, F = ctx.it.call(ctx.it.getattr(obj, "hankel"), [A(n)], {})
                wy, wF = transform("fftlog", Fraction(2 * n - 1, 2), xs, [f * M.sqrt(x) for f, x in zip(fs, xs)], lnr, nu, 0, 0, 0, "0.25")
                ctx.eq("y", A(y), arr(wy))
                ctx.eq("F", A(F), arr([f * M.sqrt(2 * q / A(T.PI)) for f, q in zip(wF, wy)]))
