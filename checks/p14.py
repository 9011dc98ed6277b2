"""P14: special functions."""
from .common import *
from sa import extlib as X

FLOOR = 30
SP = P + "fastlens.special:"

# Cephes j0.c / j1.c (double precision), published tables
RP0 = (-4.79443220978201773821E9, 1.95617491946556577543E12, -2.49248344360967716204E14, 9.70862251047306323952E15)
RQ0 = (1.0, 4.99563147152651017219E2, 1.73785401676374683123E5, 4.84409658339962045305E7, 1.11855537045356834862E10,
       2.11277520115489217587E12, 3.10518229857422583814E14, 3.18121955943204943306E16, 1.71086294081043136091E18)
PP0 = (7.96936729297347051624E-4, 8.28352392107440799803E-2, 1.23953371646414299388E0, 5.44725003058768775090E0,
       8.74716500199817011941E0, 5.30324038235394892183E0, 9.99999999999999997821E-1)
PQ0 = (9.24408810558863637013E-4, 8.56288474354474431428E-2, 1.25352743901058953537E0, 5.47097740330417105182E0,
       8.76190883237069594232E0, 5.30605288235394617618E0, 1.00000000000000000218E0)
QP0 = (-1.13663838898469149931E-2, -1.28252718670509318512E0, -1.95539544257735972385E1, -9.32060152123768231369E1,
       -1.77681167980488050595E2, -1.47077505154951170175E2, -5.14105326766599330220E1, -6.05014350600728481186E0)
QQ0 = (1.0, 6.43178256118178023184E1, 8.56430025976980587198E2, 3.88240183605401609683E3, 7.24046774195652478189E3,
       5.93072701187316984827E3, 2.06209331660327847417E3, 2.42005740240291393179E2)
DR = (5.78318596294678452118E0, 3.04712623436620863991E1)
RP1 = (-8.99971225705559398224E8, 4.52228297998194034323E11, -7.27494245221818276015E13, 3.68295732863852883286E15)
RQ1 = (1.0, 6.20836478118054335476E2, 2.56987256757748830383E5, 8.35146791431949253037E7, 2.21511595479792499675E10,
       4.74914122079991414898E12, 7.84369607876235854894E14, 8.95222336184627338078E16, 5.32278620332680085395E18)
PP1 = (7.62125616208173112003E-4, 7.31397056940917570436E-2, 1.12719608129684925192E0, 5.11207951146807644818E0,
       8.42404590141772420927E0, 5.21451598682361504063E0, 1.00000000000000000254E0)
PQ1 = (5.71323128072548699714E-4, 6.88455908754495404082E-2, 1.10514232634061696926E0, 5.07386386128601488557E0,
       8.39985554327604159757E0, 5.20982848682361821619E0, 9.99999999999999997461E-1)
QP1 = (5.10862594750176621635E-2, 4.98213872951233449420E0, 7.58238284132545283818E1, 3.66779609360150777800E2,
       7.10856304998926107277E2, 5.97489612400613639965E2, 2.11688757100572135698E2, 2.52070205858023719784E1)
QQ1 = (1.0, 7.42373277035675149943E1, 1.05644886038262816351E3, 4.98641058337653607651E3, 9.56231892404756170795E3,
       7.99704160447350683650E3, 2.82619278517639096600E3, 3.36093607810698293419E2)
Z = (1.46819706421238932572E1, 4.92184563216946036703E1)
# Bernoulli numbers B_2, B_4, ...
B = [Fraction(1, 6), Fraction(-1, 30), Fraction(1, 42), Fraction(-1, 30), Fraction(5, 66), Fraction(-691, 2730), Fraction(7, 6), Fraction(-3617, 510)]


def pv(c, z):
    r = A(0)
    for x in c:
        r = r * z + A(float(x))
    return r


def ite(c, a, b):
    a, b = A(a), A(b)
    return Arr(T.ite(A(c).item(), a.item(), b.item()), "c" if "c" in (a.dt, b.dt) else "f")


def log(x):
    return Arr(M.log_node(A(x).item()), A(x).dt)


def exp(x):
    return Arr(T.exp(A(x).item()), A(x).dt)


def sin(x):
    return X._sin(A(x))


def cos(x):
    return X._cos(A(x))


PI = A(T.PI)


# ---------------------------------------------------------------- reference formulas
def stirling(z, n=16, k=5):
    """exp( log(2 pi)/2 - t + (t-1/2) log t + sum B_2k/(2k(2k-1)) t^(1-2k) ) / prod_{i<n}(z+i),  t = z+n"""
    t = z + n
    lg = log(2 * PI) / 2 - t + (t - Fraction(1, 2)) * log(t)
    for i in range(k):
        lg = lg + A(B[i] / ((2 * i + 2) * (2 * i + 1))) / t ** (2 * i + 1)
    u = A(1)
    for i in range(n):
        u = u * (z + i)
    return lg, u


def gamma_right(z):
    lg, u = stirling(z)
    return exp(lg - log(u))


def gamma_left(z):
    return PI / (sin(PI * z) * gamma_right(1 - z))


def psi_ref(z, shift):
    """asymptotic series, after 8 recurrence steps when asked for"""
    s = A(0)
    if shift:
        for i in range(8):
            s = s - 1 / (z + i)
        z = z + 8
    s = s + log(z) - 1 / (2 * z)
    for i in range(8):
        s = s - A(B[i] / (2 * i + 2)) / z ** (2 * i + 2)
    return s


def agm(b0, n, split=False):
    a, b, c = A(1), b0, []
    for _ in range(n):
        c.append((a - b) / 2)
        a, b = (a + b) / 2, M.sqrt(a) * M.sqrt(b) if split else M.sqrt(a * b)
    return a, c


def j0_ref(x):
    z = x * x
    small = (z - A(DR[0])) * (z - A(DR[1])) * pv(RP0, z) / pv(RQ0, z)
    w, q = 5 / x, 25 / (x * x)
    xn = x - PI / 4
    large = (cos(xn) * pv(PP0, q) / pv(PQ0, q) - w * sin(xn) * pv(QP0, q) / pv(QQ0, q)) * M.sqrt(2 / PI) / M.sqrt(x)
    return 1 - z / 4, small, large


def j1_ref(x):
    z = x * x
    small = x * (z - A(Z[0])) * (z - A(Z[1])) * pv(RP1, z) / pv(RQ1, z)
    w, q = 5 / x, 25 / (x * x)
    xn = x - 3 * PI / 4
    large = (cos(xn) * pv(PP1, q) / pv(PQ1, q) - w * sin(xn) * pv(QP1, q) / pv(QQ1, q)) * M.sqrt(2 / PI) / M.sqrt(x)
    return small, large


def below(x, c):
    """both readings of a switch at c"""
    return [M.compare("<", x, A(c)), M.compare("<=", x, A(c))]


def anyof(ctx, label, got, refs):
    """the two sides of a switch agree in the limit, so either reading of the boundary point is right"""
    for r in refs[1:]:
        if ctx.same(got, r):
            return ctx.eq(label, got, r)
    ctx.eq(label, got, refs[0])


def cpl(re, im):
    return A(re) + Arr(T.I, "c") * A(im)


def run(ctx):
    ctx.rule("gamma: Stirling series with B_2..B_10 after 16 recurrence steps for Re z>0, pi/(sin(pi z) gamma(1-z)) for Re z<=0, undefined exactly at 0,-1,-2,...; digamma: asymptotic series with B_2..B_16 after 8 recurrence steps for Re z<8, reflection for Re z<0; K and E: arithmetic-geometric mean (at least 5 steps) with the negative-argument transformation; J0, J1: Cephes rational approximations on |x|<5 and |x|>=5, even / odd; j2 = 2 j1/x - j0; j1p5 = sqrt(2/(pi x)) (sin x/x - cos x)")
    x, y, p = pos("px"), pos("py"), pos("pp")
    # -------------------------------------------------- gamma
    for pub in ("gamma_", "gamma"):
        for sg in (1, -1, 0):
            tag = {1: "upper half plane", -1: "lower half plane", 0: "real axis"}[sg]
            z = cpl(x, sg * y) if sg else Arr((x + A(0)).a, "c")
            with ctx.case("%s, Re z > 0, %s" % (pub, tag), SP + "gamma_"):
                ctx.eq("Stirling series", A(ctx.call(SP + pub, z)).reshape(()), gamma_right(z))
            z = cpl(-1 * p, sg * y) if sg else Arr((-1 * p).a, "c")
            with ctx.case("%s, Re z < 0, %s" % (pub, tag), SP + "gamma_"):
                got = A(ctx.call(SP + pub, z)).reshape(())
                ref = gamma_left(z)
                if sg:
                    ctx.eq("reflection", got, ref)
                else:
                    pole = M.compare("==", -1 * p, X._floor(-1 * p))
                    ctx.eq("reflection away from the poles", got, ite(pole, A(T.NAN), ref))
            if sg:
                z = cpl(0, sg * y)
                with ctx.case("%s, imaginary axis, %s" % (pub, tag), SP + "gamma_"):
                    ctx.eq("finite", A(ctx.call(SP + pub, z)).reshape(()), gamma_left(z))
        for n in (0, -1, -2, -7):
            with ctx.case("%s at its pole %d" % (pub, n), SP + "gamma_"):
                ctx.eq("undefined", A(ctx.call(SP + pub, Arr(A(n).a, "c"))).reshape(()), A(T.NAN))
    with ctx.case("gamma of an array", SP + "gamma_"):
        z = arr([cpl(x, y), cpl(-1 * p, y), cpl(-2, 3), cpl(-2, 0), cpl(x, 0)], "c")
        got = A(ctx.call(SP + "gamma", Arr(z.a.reshape(5, 1), "c")))
        ctx.fact("shape", got.shape == (5, 1), "shape %s" % (got.shape,))
        refs = [gamma_right(cpl(x, y)), gamma_left(cpl(-1 * p, y)), gamma_left(cpl(-2, 3)), A(T.NAN), gamma_right(cpl(x, 0))]
        for i, r in enumerate(refs):
            ctx.eq("entry %d" % i, Arr(got.a[i, 0], "c"), r)
    # -------------------------------------------------- digamma
    with ctx.case("digamma, 0 < Re z < 8 and Re z >= 8", SP + "digamma_"):
        z = cpl(x, S("yy"))
        got = A(ctx.call(SP + "digamma_", z)).reshape(())
        anyof(ctx, "recurrence and asymptotic series", got, [ite(c, psi_ref(z, True), psi_ref(z, False)) for c in below(x, 8)])
    with ctx.case("digamma, Re z < 0", SP + "digamma_"):
        z = cpl(-1 * p, y)
        got = A(ctx.call(SP + "digamma_", z)).reshape(())
        cot = PI * cos(PI * z) / sin(PI * z)
        anyof(ctx, "reflection", got, [ite(c, psi_ref(1 - z, True), psi_ref(1 - z, False)) - cot for c in below(1 + p, 8)])
    for re, im in ((3, 2), (12, -1), (Fraction(-5, 2), 3), (Fraction(-1, 4), 0)):
        with ctx.case("digamma at %s%+di" % (re, im), SP + "digamma_"):
            z = cpl(re, im)
            got = A(ctx.call(SP + "digamma_", z)).reshape(())
            u = z if re > 0 else 1 - z
            r = psi_ref(u, (re if re > 0 else 1 - re) < 8)
            ctx.eq("value", got, r if re > 0 else r - PI * cos(PI * z) / sin(PI * z))
    # -------------------------------------------------- elliptic integrals
    m = pos("m")
    for name in ("ellipk", "ellipe"):
        def ref(m, n, split=False):
            a, c = agm(M.sqrt(1 - m), n, split)
            if name == "ellipk":
                return PI / (2 * a)
            s = m / 2
            for k, ck in enumerate(c):
                s = s + 2 ** k * ck * ck
            return PI / (2 * a) * (1 - s)
        refs = lambda m, f=A(1): [f * ref(m, n, s) for s in (False, True) for n in ((5, 6, 7) if ctx.thorough else (5, 6))]
        with ctx.case("%s, positive parameter" % name, SP + name):
            k = pos("kp")
            mm = 1 / ((1 + k) * (1 + k))          # covers 0 < m < 1
            got = A(ctx.call(SP + name, mm))
            anyof(ctx, "arithmetic-geometric mean", got, refs(mm))
        with ctx.case("%s, negative parameter" % name, SP + name):
            mm, f = m * (2 + m), 1 + m            # covers all negative parameters -mm, sqrt(1+mm) = f
            anyof(ctx, "transformation to a positive parameter", A(ctx.call(SP + name, -1 * mm)), [r for u in (mm / (f * f), mm / (1 + mm)) for r in refs(u, 1 / f if name == "ellipk" else f)])
        with ctx.case("%s, zero parameter" % name, SP + name):
            ctx.eq("pi/2", A(ctx.call(SP + name, A(Fraction(0)))), PI / 2)
    # -------------------------------------------------- Bessel functions
    for pub in ("j0_", "j0", "j1_", "j1"):
        vec = not pub.endswith("_")
        for sg in (1, -1, 0):
            with ctx.case("%s, %s argument" % (pub, {1: "positive", -1: "negative", 0: "zero"}[sg]), SP + pub[:2] + "_"):
                z = sg * x if sg else A(Fraction(0))
                if vec:
                    z = arr([z, z])
                got = A(ctx.call(SP + pub, z))
                ctx.fact("shape", got.shape == z.shape, "shape %s" % (got.shape,))
                for i in np.ndindex(*got.shape):
                    g = Arr(got.a[i], "f")
                    if pub[:2] == "j0":
                        if not sg:
                            ctx.eq("J0(0)", g, A(1))
                            continue
                        tiny, small, large = j0_ref(x)
                        lo = [ite(c, tiny, small) for c in below(x, Fraction(1, 100000))] + [small]
                        anyof(ctx, "J0", g, [ite(c, l, large) for c in below(x, 5) for l in lo])
                    else:
                        if not sg:
                            ctx.eq("J1(0)", g, A(0))
                            continue
                        small, large = j1_ref(x)
                        anyof(ctx, "J1", g, [sg * ite(c, small, large) for c in below(x, 5)])
    for pub in ("j2_", "j2"):
        with ctx.case(pub, SP + "j2_"):
            for k in (0, 1):
                def h(b, k=k):
                    v = A(list(b.values())[0])
                    return Arr(np.vectorize(lambda n: T.fn("BesselJ%d" % k, (n,)), otypes=[object])(v.a) if v.shape else T.fn("BesselJ%d" % k, (v.item(),)), "f", False, True)
                ctx.it.intercepts[SP + "j%d_" % k] = h
            z = x if pub == "j2_" else arr([x, 2 * x])
            got = A(ctx.call(SP + pub, z))
            for i in np.ndindex(*got.shape):
                v = Arr(A(z).a[i], "f")
                ctx.eq("2 J1/x - J0", Arr(got.a[i], "f"), 2 / v * Arr(T.fn("BesselJ1", (v.item(),)), "f") - Arr(T.fn("BesselJ0", (v.item(),)), "f"))
    for pub in ("j1p5_", "j1p5"):
        with ctx.case(pub, SP + "j1p5_"):
            z = x if pub == "j1p5_" else arr([x, 2 * x])
            got = A(ctx.call(SP + pub, z))
            for i in np.ndindex(*got.shape):
                v = Arr(A(z).a[i], "f")
                ctx.eq("J_3/2", Arr(got.a[i], "f"), M.sqrt(2 / (PI * v)) * (sin(v) / v - cos(v)))
