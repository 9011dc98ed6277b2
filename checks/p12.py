"""P12: annual parallax geometry."""
from .common import *
from sa import extlib as X

FLOOR = 60
PX = P + "trajectory.parallax:"
ORDER = 8          # 0.0167^8 is below double precision


# ---------------------------------------------------------------- power series of a value graph in one symbol
def padds(a, b, k=1):
    return [nf.padd(x, y, k) for x, y in zip(a, b)]


def pmuls(a, b):
    n = len(a)
    out = [{} for _ in range(n)]
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b[:n - i]):
                if y:
                    out[i + j] = nf.padd(out[i + j], nf.pmul(x, y))
    return out


def sinv(a):
    if not a[0]:
        raise M.Unsupported("series division")
    i0 = nf.inv_poly(a[0])
    out = [i0] + [{} for _ in a[1:]]
    for k in range(1, len(a)):
        t = {}
        for j in range(1, k + 1):
            t = nf.padd(t, nf.pmul(a[j], out[k - j]))
        out[k] = nf.pneg(nf.pmul(i0, t))
    return out


def series(n, var, order, memo):
    """coefficients (normal forms free of `var`) of n = sum_k a_k var^k up to the given order"""
    r = memo.get(n.id)
    if r is not None:
        return r
    z = lambda: [{} for _ in range(order + 1)]
    one = lambda: [nf.ONE] + [{} for _ in range(order)]
    rec = lambda x: series(x, var, order, memo)
    if n is var:
        r = z()
        r[1] = nf.ONE
    elif n.op in ("c", "sym"):
        r = z()
        r[0] = nf.poly(n)
    elif n.op == "add":
        r = z()
        for x in n.args:
            r = padds(r, rec(x))
    elif n.op == "mul":
        r = one()
        for x in n.args:
            r = pmuls(r, rec(x))
    elif n.op == "pow" and n.data.denominator == 1:
        b = rec(n.args[0])
        k = int(n.data)
        if k < 0:
            b, k = sinv(b), -k
        r = one()
        for _ in range(k):
            r = pmuls(r, b)
    elif n.op == "fn" and n.data[0] in ("sin", "cos"):
        a = rec(n.args[0])
        if not a[0]:
            s, c = {}, nf.ONE
        else:
            base = node_of(n.args[0], var)
            s, c = nf.poly(T.fn("sin", (base,))), nf.poly(T.fn("cos", (base,)))
        # sin(a0 + h), h = O(var)
        h = [{}] + a[1:]
        sh, ch, t = z(), one(), one()
        f = Fraction(1)
        for k in range(1, order + 1):
            t = pmuls(t, h)
            f = f / k
            if k % 2:
                sh = padds(sh, [nf.pscale(x, f * (-1) ** (k // 2)) for x in t])
            else:
                ch = padds(ch, [nf.pscale(x, f * (-1) ** (k // 2)) for x in t])
        sc = lambda p, v: [nf.pmul(p, x) for x in v]
        r = padds(sc(s, ch), sc(c, sh)) if n.data[0] == "sin" else padds(sc(c, ch), sc(s, sh), -1)
    elif not depends(n, var, {}):
        r = z()
        r[0] = nf.poly(n)
    else:
        raise M.Unsupported("series of %s" % T.show(n, 2))
    memo[n.id] = r
    return r


def depends(n, var, memo):
    if n is var:
        return True
    r = memo.get(n.id)
    if r is None:
        r = memo[n.id] = any(depends(x, var, memo) for x in n.args)
    return r


def node_of(n, var):
    """the node at var = 0 (only for the leading term of trigonometric arguments)"""
    if n is var:
        return T.ZERO
    if n.op == "add":
        return T.add(*[node_of(x, var) for x in n.args])
    if n.op == "mul":
        return T.mul(*[node_of(x, var) for x in n.args])
    if n.op == "pow" and n.data.denominator == 1:
        return T.power(node_of(n.args[0], var), n.data)
    if n.op == "fn" and n.data[0] in ("sin", "cos"):
        return T.fn(n.data[0], (node_of(n.args[0], var),))
    if not depends(n, var, {}):
        return n
    raise M.Unsupported("value at zero of %s" % T.show(n, 2))


def kepler_series(phi, order):
    """E = phi + sum_n (2/n) J_n(n e) sin(n phi), expanded in e"""
    out = [nf.poly(phi)] + [{} for _ in range(order)]
    from math import factorial
    for n in range(1, order + 1):
        for k in range(0, order):
            p = n + 2 * k
            if p > order:
                break
            c = Fraction(2, n) * Fraction((-1) ** k, factorial(k) * factorial(k + n)) * Fraction(n, 2) ** p
            out[p] = nf.padd(out[p], nf.poly(T.fn("sin", (T.mul(T.num(n), phi),))), c)
    return out


# ---------------------------------------------------------------- geometry (reference)
def unwrap(n):
    """phases may be reduced to one turn"""
    if n.op == "fn" and n.data[0] == "mod":
        two_pi = (2 * A(T.PI)).item()
        if nf.poly(n.args[1]) == nf.poly(two_pi):
            return n.args[0]
    return n


def psi_of(phase, ecc):
    return Arr(T.fn("ecc_anomaly", (unwrap(A(phase).item()), A(ecc).item()), real=True), "f")


def stub_psi(ctx):
    seen = []

    def h(b):
        ph, ec = A(b["phi"]), A(b["ecc"])
        seen.append(b)
        out = np.empty(ph.shape, dtype=object)
        for i in np.ndindex(*ph.shape):
            out[i] = psi_of(Arr(ph.a[i], "f"), ec).item()
        return Arr(out, "f", False, True)
    ctx.it.intercepts[PX + "getpsi"] = h
    return seen


def stub_tables(ctx, p0, v0):
    ctx.it.intercepts[PX + "peri_vernal"] = lambda b: (p0, v0)


def stub_anomaly(ctx, g):
    """the true anomaly given by any positive multiple of (cos f, sin f), or by its half angle"""
    def h2(args, kw):
        y, x = (Arr(A(v).item(), "f") if A(v).ndim == 0 else A(v) for v in args)
        if y.ndim == 0 and x.ndim == 0 and not ctx.same(x, g.cf):
            if ctx.same(y, g.sf * g.den) and ctx.same(x, g.cf * g.den):
                return X._arctan2(g.sf, g.cf)
            if ctx.same(y * g.h[1] * M.sqrt(1 - g.ecc), x * g.h[0] * M.sqrt(1 + g.ecc)):
                return X._arctan2(g.sf, g.cf) / 2
        return X._arctan2(y, x)

    def h1(args, kw):
        y = A(args[0])
        if y.ndim == 0 and ctx.same(y * g.h[1] * M.sqrt(1 - g.ecc), g.h[0] * M.sqrt(1 + g.ecc)):
            return X._arctan2(g.sf, g.cf) / 2
        return X.FUNCS["arctan"](y)

    def tan(args, kw):
        return X._sin(A(args[0])) / X._cos(A(args[0]))
    ctx.it.ext_intercepts["jax.numpy.tan"] = tan
    ctx.it.ext_intercepts["jax.numpy.angle"] = lambda args, kw: h2([M.imag(A(args[0])), M.real(A(args[0]))], {})
    ctx.it.ext_intercepts["jax.numpy.arctan2"] = ctx.it.ext_intercepts["jax.numpy.atan2"] = h2
    ctx.it.ext_intercepts["jax.numpy.arctan"] = ctx.it.ext_intercepts["jax.numpy.atan"] = h1


def rad(x):
    return x * A(T.PI) / 180


class Geo:
    def __init__(self, tperi, tvernal, RA, Dec, obl, ecc, period):
        E = psi_of(2 * A(T.PI) * (tvernal - tperi) / period, ecc)
        c, s = X._cos(E), X._sin(E)
        den = 1 - ecc * c
        cf, sf = (c - ecc) / den, M.sqrt(1 - ecc ** 2) * s / den      # true anomaly of the equinox
        self.den, self.cf, self.sf = den, cf, sf
        self.h = (X._sin(E / 2), X._cos(E / 2))
        co, so = X._cos(rad(obl)), X._sin(rad(obl))
        # equatorial components of (orbital x, y, z): rotate by -f about z, then by the obliquity about x
        self.R = [[cf, sf, A(0)], [-1 * co * sf, co * cf, -1 * so], [-1 * so * sf, so * cf, co]]
        ca, sa, cd, sd = X._cos(rad(RA)), X._sin(rad(RA)), X._cos(rad(Dec)), X._sin(rad(Dec))
        self.east = [-1 * sa, ca, A(0)]
        self.north = [-1 * sd * ca, -1 * sd * sa, cd]
        self.los = [ca * cd, sa * cd, sd]
        self.tperi, self.ecc, self.period = tperi, ecc, period

    def q(self, t):
        E = psi_of(2 * A(T.PI) * (t - self.tperi) / self.period, self.ecc)
        x = [X._cos(E) - self.ecc, M.sqrt(1 - self.ecc ** 2) * X._sin(E), A(0)]
        v = [dot(r, x) for r in self.R]
        return [dot(self.north, v), dot(self.east, v)]


def dot(a, b):
    r = A(0)
    for x, y in zip(a, b):
        r = r + x * y
    return r


def mat(m):
    a = np.empty((len(m), len(m[0])), dtype=object)
    for i, r in enumerate(m):
        for j, x in enumerate(r):
            a[i, j] = A(x).item()
    return Arr(a, "f")


def run(ctx):
    ctx.rule("basis: R = Rx(obliquity) Rz(-f), east = z x los / |.|, north = los x east for los from (RA, Dec) in degrees")
    ctx.rule("orbit: ((cos E - e), sqrt(1-e^2) sin E, 0) with E the eccentric anomaly of mean anomaly 2 pi (t - tperi)/period, rotated by R and projected on (north, east); f is the true anomaly of the equinox epoch")
    ctx.rule("offsets: dtau = piEN D_N + piEE D_E, du = piEN D_E - piEE D_N with D = q(t) - q(tref) - v (t - tref), v = (q(tref+dt) - q(tref-dt))/(2 dt)")
    ctx.rule("Kepler equation: the eccentricity expansion of the solver's result agrees with E = phi + sum (2/n) J_n(n e) sin n phi through order e^%d" % ORDER)
    t_ref, RA, obl, dt = S("tref"), S("ra"), S("obl"), pos("hstep")
    Dec = X._arctan2(S("sdec"), pos("cdec")) * 180 / A(T.PI)          # every declination between -90 and 90 degrees
    tp, tv, ecc, per = pos("tperi"), pos("tvernal"), pos("ecc"), pos("period")
    with ctx.case("projection basis", PX + "prepare_projection_basis"):
        f = S("foff")
        R, north, east = ctx.call(PX + "prepare_projection_basis", obl, f, RA, Dec)
        co, so, cf, sf = X._cos(rad(obl)), X._sin(rad(obl)), X._cos(f), X._sin(f)
        g = Geo(tp, tv, RA, Dec, obl, ecc, per)
        ctx.eq("rotation", A(R), mat([[cf, sf, A(0)], [-1 * co * sf, co * cf, -1 * so], [-1 * so * sf, so * cf, co]]))
        ctx.eq("north", A(north), arr(g.north))
        ctx.eq("east", A(east), arr(g.east))
        n, e = [Arr(x, "f") for x in A(north).a], [Arr(x, "f") for x in A(east).a]
        for lab, u, v, w in (("north is a unit vector", n, n, 1), ("east is a unit vector", e, e, 1), ("north and east are orthogonal", n, e, 0),
                             ("north is in the tangent plane", n, g.los, 0), ("east is in the tangent plane", e, g.los, 0)):
            ctx.eq(lab, dot(u, v), A(w))
    for shape in ((), (1,), (3,)):
        with ctx.case("projected position, times of shape %s" % (shape,), PX + "project_earth_position"):
            seen = stub_psi(ctx)
            t = V("tt", *shape) if shape else S("tt")
            R, north, east = V("R", 3, 3), V("north", 3), V("east", 3)
            got = A(ctx.call(PX + "project_earth_position", t, tp, per, ecc, R, north, east))
            need(ctx, seen, "getpsi")
            n = shape[0] if shape else 1
            ctx.fact("shape", got.shape == (2, n), "shape %s" % (got.shape,))
            for k in range(n):
                tk = Arr(t.a[k], "f") if shape else t
                E = psi_of(2 * A(T.PI) * (tk - tp) / per, ecc)
                x = [X._cos(E) - ecc, M.sqrt(1 - ecc ** 2) * X._sin(E), A(0)]
                v = [dot([Arr(y, "f") for y in r], x) for r in R.a]
                ctx.eq("north", Arr(got.a[0, k], "f"), dot([Arr(y, "f") for y in north.a], v))
                ctx.eq("east", Arr(got.a[1, k], "f"), dot([Arr(y, "f") for y in east.a], v))
    for lab, a, b, ua, ub in (("epochs given", tp, tv, tp, tv), ("perihelion zero", A(0), tv, None, None), ("equinox zero", tp, A(0), None, None), ("both zero", A(0), A(0), None, None)):
        p0, v0 = pos("tabperi"), pos("tabvernal")
        ua, ub = (p0, v0) if ua is None else (ua, ub)
        with ctx.case("precomputed parameters, %s" % lab, PX + "set_parallax"):
            seen = stub_psi(ctx)
            stub_tables(ctx, p0, v0)
            ecc = pos("eccodds") / (1 + pos("eccodds"))          # every eccentricity between 0 and 1
            g = Geo(ua, ub, RA, Dec, obl, ecc, per)
            stub_anomaly(ctx, g)
            got = ctx.call(PX + "set_parallax", t_ref, a, b, RA, Dec, rotaxis_deg=obl, ecc=ecc, period=per, dt=dt)
            need(ctx, seen, "getpsi")
            ctx.fact("nine parameters", isinstance(got, (tuple, list)) and len(got) == 9)
            ctx.eq("rotation", A(got[2]), mat(g.R))
            ctx.eq("north", A(got[3]), arr(g.north))
            ctx.eq("east", A(got[4]), arr(g.east))
            for i, (nm, w) in enumerate((("tref", t_ref), ("tperi", ua), ("period", per), ("ecc", ecc))):
                ctx.eq(nm, A(got[5 + i]), w)
    ecc = pos("ecc")
    with ctx.case("default constants", PX + "set_parallax"):
        seen = stub_psi(ctx)
        stub_tables(ctx, pos("tabperi"), pos("tabvernal"))
        got = ctx.call(PX + "set_parallax", t_ref, tp, tv, RA, Dec)
        want = ctx.call(PX + "set_parallax", t_ref, tp, tv, RA, Dec, rotaxis_deg=A(Fraction("23.44")), ecc=A(Fraction("0.0167")), period=A(Fraction("365.25636")), dt=A(Fraction(1, 10)))
        for i in range(9):
            ctx.eq("parameter %d" % i, A(got[i]), A(want[i]))
    # the remaining identities do not need the basis in closed form
    for shape in ((), (3,)):
        with ctx.case("offsets from precomputed parameters, times of shape %s" % (shape,), PX + "compute_parallax"):
            seen = stub_psi(ctx)
            t = V("tt", *shape) if shape else S("tt")
            R, north, east = V("R", 3, 3), V("north", 3), V("east", 3)
            q0, v = V("q0", 2, 1), V("v", 2, 1)
            pn, pe = S("piEN"), S("piEE")
            got = ctx.call(PX + "compute_parallax", t, pn, pe, (q0, v, R, north, east, t_ref, tp, per, ecc))
            need(ctx, seen, "getpsi")
            ctx.fact("two results", isinstance(got, (tuple, list)) and len(got) == 2)
            n = shape[0] if shape else 1
            for k in range(n):
                tk = Arr(t.a[k], "f") if shape else t
                E = psi_of(2 * A(T.PI) * (tk - tp) / per, ecc)
                x = [X._cos(E) - ecc, M.sqrt(1 - ecc ** 2) * X._sin(E), A(0)]
                pv = [dot([Arr(y, "f") for y in r], x) for r in R.a]
                D = [dot([Arr(y, "f") for y in w.a], pv) - Arr(q0.a[j, 0], "f") - Arr(v.a[j, 0], "f") * (tk - t_ref) for j, w in enumerate((north, east))]
                ctx.fact("shape", A(got[0]).shape == (n,) and A(got[1]).shape == (n,), "shapes %s %s" % (A(got[0]).shape, A(got[1]).shape))
                ctx.eq("dtau", Arr(A(got[0]).a[k], "f"), pn * D[0] + pe * D[1])
                ctx.eq("du", Arr(A(got[1]).a[k], "f"), pn * D[1] - pe * D[0])
    with ctx.case("position and velocity at the reference epoch", PX + "set_parallax"):
        log = []

        def proj(b):
            log.append(b)
            t = A(b["t"])
            ts = list(t.a.flat)
            a = np.empty((2, len(ts)), dtype=object)
            for j in range(2):
                for k, x in enumerate(ts):
                    a[j, k] = T.fn("earth", (x,), data=str(j), real=True)
            return Arr(a, "f", False, True)
        ctx.it.intercepts[PX + "project_earth_position"] = proj
        stub_psi(ctx)
        stub_tables(ctx, pos("tabperi"), pos("tabvernal"))
        got = ctx.call(PX + "set_parallax", t_ref, tp, tv, RA, Dec, rotaxis_deg=obl, ecc=ecc, period=per, dt=dt)
        need(ctx, log, "project_earth_position")
        g = Geo(tp, tv, RA, Dec, obl, ecc, per)
        for b in log:
            for nm, w in (("tperi", tp), ("period", per), ("ecc", ecc)):
                ctx.eq("orbit evaluated with the same %s" % nm, A(b[nm]), w)
            ctx.eq("same rotation", A(b["R"]), A(got[2]))
            ctx.eq("same north", A(b["north"]), A(got[3]))
            ctx.eq("same east", A(b["east"]), A(got[4]))
        for j in range(2):
            q = lambda x: Arr(T.fn("earth", (x.item(),), data=str(j), real=True), "f")
            ctx.eq("position[%d]" % j, Arr(A(got[0]).a[j].flat[0] if A(got[0]).ndim > 1 else A(got[0]).a[j], "f"), q(t_ref))
            ctx.eq("velocity[%d]" % j, Arr(A(got[1]).a[j].flat[0] if A(got[1]).ndim > 1 else A(got[1]).a[j], "f"), (q(t_ref + dt) - q(t_ref - dt)) / (2 * dt))
    with ctx.case("offsets vanish at the reference epoch", PX + "compute_parallax"):
        seen = stub_psi(ctx)
        stub_tables(ctx, pos("tabperi"), pos("tabvernal"))
        par = ctx.call(PX + "set_parallax", t_ref, tp, tv, RA, Dec, rotaxis_deg=obl, ecc=ecc, period=per, dt=dt)
        got = ctx.call(PX + "compute_parallax", t_ref, S("piEN"), S("piEE"), par)
        for nm, r in zip(("dtau", "du"), got):
            for x in A(r).a.flat:
                ctx.eq(nm, Arr(x, "f"), A(0))
    with ctx.case("Kepler equation", PX + "getpsi"):
        phi, e = S("phi"), S("eccs")
        got = A(ctx.call(PX + "getpsi", phi, e)).item()
        memo = {}
        have = series(got, e.item(), ORDER, memo)
        want = kepler_series(phi.item(), ORDER)
        for k in range(ORDER + 1):
            ctx.fact("order %d" % k, nf.is_zero(nf.padd(have[k], want[k], -1)), "coefficient of e^%d is %s, required %s" % (k, nf.show(have[k], 8), nf.show(want[k], 8)))
        gv = A(ctx.call(PX + "getpsi", V("phi", 2), e))
        ctx.fact("elementwise", gv.shape == (2,), "shape %s" % (gv.shape,))
    with ctx.case("epoch tables", PX + "peri_vernal"):
        first = ctx.call(PX + "peri_vernal", A(Fraction(0)))
        pairs, t = [], None
        p, v = [T.cval(A(x).item()) for x in first]
        if p is None or v is None:
            raise M.Unsupported("tables are not constants")
        last = [T.cval(A(x).item()) for x in ctx.call(PX + "peri_vernal", A(Fraction(40000)))]
        while True:
            pairs.append((p, v))
            if p >= last[0] or len(pairs) > 60:
                break
            nx = [T.cval(A(x).item()) for x in ctx.call(PX + "peri_vernal", A(p + 366))]
            ctx.fact("the next perihelion is selected one year later", nx[0] > p, "after %s comes %s" % (float(p), float(nx[0])))
            p, v = nx
        ctx.fact("at least twenty years", len(pairs) >= 20, "%d entries" % len(pairs))
        year, anom = Fraction("365.2422"), Fraction("365.2596")
        for i, (p, v) in enumerate(pairs):
            ctx.fact("equinox follows the perihelion of the same year", 70 < v - p < 82, "perihelion %s, equinox %s" % (float(p), float(v)))
            ctx.fact("equinox epochs are tropical years apart", abs(v - pairs[0][1] - i * year) < Fraction(1, 10), "equinox %s" % float(v))
            ctx.fact("perihelion epochs are anomalistic years apart", abs(p - pairs[0][0] - i * anom) < 4, "perihelion %s" % float(p))
        for i, (p, v) in enumerate(pairs):
            for off in (Fraction(-170), Fraction(0), Fraction(170)):
                for base in (0, 2450000):
                    r = [T.cval(A(x).item()) for x in ctx.call(PX + "peri_vernal", A(p + off + base))]
                    near = min((abs(q - p - off), j) for j, (q, _) in enumerate(pairs))[1]
                    ctx.fact("nearest perihelion", r[0] == pairs[near][0], "reference %s selects perihelion %s, nearest is %s" % (float(p + off + base), float(r[0]), float(pairs[near][0])))
                    ctx.fact("an equinox of the table, within a year", r[1] in [v2 for _, v2 in pairs] and abs(r[1] - p - off) < 366, "reference %s selects equinox %s" % (float(p + off), float(r[1])))
