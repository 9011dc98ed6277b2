"""P06: hexadecapole approximation."""
from .common import *
from .p01 import params

FLOOR = 30
MP = P + "multipole"


# --- exact expansion, derived from the lens map by implicit differentiation -----------------------------------
# z(zeta): d/dzeta = mu (d_z + W2 d_zbar), d/dzetabar = mu (d_zbar + W2bar d_z), mu = 1/(1 - W2 W2bar), d_z W_k = W_{k+1}
# Laplacian = 4 d_zeta d_zetabar; a disk moment <r^2n> contributes <r^2n> Lap^n / (4^n n!^2)
def _d(p, bar):
    """derivative of a polynomial {((var, power)...): coeff} with respect to z (or zbar)"""
    out = {}

    def put(mono, c):
        k = tuple(sorted((v, e) for v, e in mono.items() if e))
        out[k] = out.get(k, 0) + c
        if not out[k]:
            del out[k]
    for mono, c in p.items():
        d = dict(mono)
        for v, e in mono:
            n = dict(d)
            n[v] -= 1
            if v == "mu":          # d_z mu = mu^2 W3 W2bar
                n["mu"] = n.get("mu", 0) + 2
                for x in (("b3", "w2") if bar else ("w3", "b2")):
                    n[x] = n.get(x, 0) + 1
            elif (v[0] == "b") == bar:
                x = v[0] + str(int(v[1]) + 1)
                n[x] = n.get(x, 0) + 1
            else:
                continue
            put(n, c * e)
    return out


def _mulm(p, **m):
    out = {}
    for mono, c in p.items():
        d = dict(mono)
        for v, e in m.items():
            d[v] = d.get(v, 0) + e
        out[tuple(sorted(d.items()))] = c
    return out


def _plus(p, q):
    out = dict(p)
    for k, c in q.items():
        out[k] = out.get(k, 0) + c
        if not out[k]:
            del out[k]
    return out


def _D(p, bar):
    """d/dzeta (bar: d/dzetabar) for a polynomial in mu, W_k, conj W_k"""
    if bar:
        return _mulm(_plus(_d(p, True), _mulm(_d(p, False), b2=1)), mu=1)
    return _mulm(_plus(_d(p, False), _mulm(_d(p, True), w2=1)), mu=1)


def laplacians():
    mu = {(("mu", 1),): 1}
    l1 = _D(_D(mu, False), True)
    l2 = _D(_D(l1, False), True)
    return {k: 4 * c for k, c in l1.items()}, {k: 16 * c for k, c in l2.items()}


def value(p, W):
    env = {"mu": 1 / (1 - W[2] * M.conj(W[2]))}
    for k in W:
        env["w%d" % k], env["b%d" % k] = W[k], M.conj(W[k])
    terms = []
    for mono, c in p.items():
        t = A(c)
        for v, e in mono:
            t = t * env[v] ** e
        terms.append(t.item())
    return Arr(T.add(*terms), "c")


def moments(u1):
    """<r^2>, <r^4> of the linear law 1 - u1 (1 - sqrt(1-r^2)) over the unit disk"""
    g = 2 * u1 / (3 - u1)
    return (1 - g / 5) / 2, (1 - 11 * g / 35) / 3


def expansion(W, rho, u1):
    l1, l2 = laplacians()
    r2, r4 = moments(u1)
    mu = 1 / (1 - W[2] * M.conj(W[2]))
    return mu, value(l1, W) * r2 * rho ** 2 / 4, value(l2, W) * r4 * rho ** 4 / 64


def derivatives(z, ms, ps):
    """W_k = d^(k-1)/dz^(k-1) sum m/(z-p)"""
    f = {2: -1, 3: 2, 4: -6, 5: 24, 6: -120}
    out = {}
    for k, c in f.items():
        t = A(0)
        for m, p in zip(ms, ps):
            t = t + m / (z - p) ** k
        out[k] = t * c
    return out


def run(ctx):
    ctx.rule("the per-image terms equal mu, Lap(mu) <r^2> rho^2/4 and Lap^2(mu) <r^4> rho^4/64 obtained by implicit differentiation of the lens map, as rational functions of W2..W6 and their conjugates; W_k are the derivatives of the deflection of the stated lens; results are masked sums of absolute values over images")
    with ctx.case("size expansion of one image", MP + ":_mag_hexadecapole_cassan"):
        W = {k: cx("W%d" % k) for k in range(2, 7)}
        rho, u1 = pos("rho"), S("u1")
        private(ctx, MP + ":_mag_hexadecapole_cassan", "W", "rho", "u1")
        got = ctx.call(MP + ":_mag_hexadecapole_cassan", M.stack([W[k] for k in range(2, 7)]), rho, u1=u1)
        if not isinstance(got, tuple) or len(got) != 3:
            raise M.Unsupported("the helper returns something else")
        want = expansion(W, rho, u1)
        for n, g, s in zip(("point-source term", "quadrupole term", "hexadecapole term"), got, want):
            ctx.eq(n, A(g), s)
    for nl in (1, 2, 3):
        for shape in ((), (2,)):
            with ctx.case("deflection derivatives and masked sums, %d lenses, shape %s" % (nl, shape), MP + ":mag_hexadecapole"):
                kw, ms, ps = params(nl)
                private(ctx, MP + ":_mag_hexadecapole_cassan", "W", "rho", "u1")
                rho, u1 = pos("rho"), S("u1")
                n, log = 2, []

                def h(b):
                    v = list(b.values())
                    log.append(v)
                    s = A(v[0]).shape[1:]
                    return V("mu", *s), V("quad", *s), V("hex", *s)
                ctx.it.intercepts[MP + ":_mag_hexadecapole_cassan"] = h
                z, m = V("z", n, *shape, real=False), BV("m", n, *shape)
                mu, err = ctx.call(MP + ":mag_hexadecapole", z, m, rho, u1=u1, nlenses=nl, **kw)
                need(ctx, log, "_mag_hexadecapole_cassan")
                got, r_, u_ = log[0][:3]
                ctx.eq("source radius", A(r_), rho)
                ctx.eq("limb darkening", A(u_), u1)
                got = A(got)
                ctx.fact("five derivatives per image", got.shape == (5,) + z.shape, "shape %s" % (got.shape,))
                for i in np.ndindex(*z.shape):
                    W = derivatives(Arr(z.a[i], "c"), ms, ps)
                    for k in range(2, 7):
                        ctx.eq("W%d of image %s" % (k, i), Arr(got.a[(k - 2,) + i], "c"), W[k])
                o = h({0: got, 1: 0, 2: 0})
                for i in np.ndindex(*shape):
                    t1, t2 = A(0), A(0)
                    for k in range(n):
                        m0, q, x = [Arr(c.a[(k,) + i], "f") for c in o]
                        on = Arr(T.ite(m.a[(k,) + i], T.ONE, T.ZERO), "f")
                        t1, t2 = t1 + on * M.aabs(m0 + q + x), t2 + on * (M.aabs(q) + M.aabs(x))
                    ctx.eq("magnification", Arr(A(mu).a[i], "f"), t1)
                    ctx.eq("error estimate", Arr(A(err).a[i], "f"), t2)
    for nl, masses in ((1, ()), (2, (1,)), (2, (0,)), (3, (1, 0)), (3, (0, 1)), (3, (0, 0))):
        for shape in ((), (2,)) if nl < 3 else ((),):
            with ctx.case("end to end, %d lenses, leading masses %s, shape %s" % (nl, masses, shape), MP + ":mag_hexadecapole"):
                kw, ms, ps = params(nl)
                ms = lens_masses(nl, *[A(x) for x in masses])
                kw.update({k: A(x) for k, x in zip(("e1", "e2"), masses)})
                rho, u1 = pos("rho"), S("u1")
                n = 2
                at = [p for q_, p in zip(ms, ps) if ctx.same(q_, 1)][0]
                z, m = V("z", n, *shape, real=False) + at, BV("m", n, *shape)
                mu, err = ctx.call(MP + ":mag_hexadecapole", z, m, rho, u1=u1, nlenses=nl, **kw)
                mu, err = A(mu), A(err)
                ctx.fact("shape", mu.shape == shape and err.shape == shape, "%s %s" % (mu.shape, err.shape))
                for i in np.ndindex(*shape):
                    t1, t2 = A(0), A(0)
                    for k in range(n):
                        W = derivatives(Arr(z.a[(k,) + i], "c"), ms, ps)
                        m0, q, h = expansion(W, rho, u1)
                        on = Arr(T.ite(m.a[(k,) + i], T.ONE, T.ZERO), "f")
                        t1 = t1 + on * M.aabs(m0 + q + h)
                        t2 = t2 + on * (M.aabs(q) + M.aabs(h))
                    ctx.eq("magnification", Arr(mu.a[i], "f"), t1)
                    ctx.eq("error estimate", Arr(err.a[i], "f"), t2)
    with ctx.case("unsupported lens count refused", MP + ":mag_hexadecapole"):
        ctx.raises("4 lenses", "ValueError", lambda: ctx.call(MP + ":mag_hexadecapole", V("z", 2, real=False), BV("m", 2), pos("rho"), nlenses=4, **params(3)[0]))
