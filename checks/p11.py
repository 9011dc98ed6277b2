"""P11: flux likelihoods and the straight-line fit."""
from .common import *

FLOOR = 40
L = P + "likelihood:"


def log(x):
    return Arr(M.log_node(A(x).item()), "f")


def dot(a, b):
    r = A(0)
    for x, y in zip(a, b):
        r = r + x * y
    return r


def mv(m, v):
    return [dot(r, v) for r in m]


def mm(a, b):
    return [[dot(r, [x[j] for x in b]) for j in range(len(b[0]))] for r in a]


def tr(a):
    return [list(r) for r in zip(*a)]


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum(((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(1, len(m))), m[0][0] * det([r[1:] for r in m[1:]]))


def inverse(m):
    n, d = len(m), det(m)
    if n == 1:
        return [[1 / m[0][0]]]
    return [[(-1) ** (i + j) * det([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]) / d for j in range(n)] for i in range(n)]


def nll(r, Mx, C, Lam, logC, logL):
    """(log A is returned apart) 1/2 ( r'C^-1 r - b' A^-1 b + log|C| + log|Lambda| ), b = M'C^-1 r, A = Lambda^-1 + M'C^-1 M"""
    Ci, Li = inverse(C), inverse(Lam)
    MtCi = mm(tr(Mx), Ci)
    b = mv(MtCi, r)
    Am = [[x + y for x, y in zip(p, q)] for p, q in zip(Li, mm(MtCi, Mx))]
    quad = dot(r, mv(Ci, r)) - dot(b, mv(inverse(Am), b))
    return (quad + logC + logL) / 2, det(Am)


def mat(m):
    a = np.empty((len(m), len(m[0])), dtype=object)
    for i, r in enumerate(m):
        for j, x in enumerate(r):
            a[i, j] = A(x).item()
    return Arr(a, "f")


def rows(v):
    return [[Arr(x, "f") for x in r] for r in v.a]


def els(v):
    return [Arr(x, "f") for x in v.a]


def spd(name, n):
    """symmetric positive definite matrix L L' and its log-determinant"""
    Lo = [[(pos("%s_%d%d" % (name, i, j)) if i == j else S("%s_%d%d" % (name, i, j))) if j <= i else A(0) for j in range(n)] for i in range(n)]
    m = mm(Lo, tr(Lo))
    ld = A(0)
    for i in range(n):
        ld = ld + 2 * log(Lo[i][i])
    return m, ld


def check(ctx, got, base, dA):
    ok = ctx.same(got, base + log(dA) / 2) or ctx.same(got, base + log(M.aabs(dA)) / 2)
    if not ok:
        ctx.eq("negative log-likelihood", got, base + log(dA) / 2)
    ctx.fact("negative log-likelihood", True)


def no_factor(ctx):
    def h(args, kw):
        raise M.Unsupported("matrix factorisation")
    for n in ("jax.numpy.linalg.cholesky", "jax.scipy.linalg.cho_factor", "jax.scipy.linalg.cholesky", "jax.numpy.linalg.qr", "jax.numpy.linalg.eigh", "jax.numpy.linalg.svd"):
        ctx.it.ext_intercepts[n] = h


def run(ctx):
    ctx.shapes_matter = ("incompatible shapes", "cannot reshape")
    ctx.rule("nll_ulens_general(flux, M, C, mu, Lambda) = 1/2( r'C^-1 r - b'A^-1 b + log|C| + log|Lambda| + log|A| ), r = flux - M mu, b = M'C^-1 r, A = Lambda^-1 + M'C^-1 M, as a rational function of all entries (C = L L', Lambda = K K' with free L, K)")
    ctx.rule("nll_ulens(flux, M, s, fs, fb) = the same expression at C = diag(s), Lambda = diag(fs, fb), mu = 0")
    ctx.rule("linear_chi2: w = 1/err^2 where err > 0 else 1; intercept and slope solve the weighted normal equations, errors are the square roots of the inverse normal matrix, chi2 = sum w (y - a - b x)^2")
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        with ctx.case("fast likelihood, %d data" % n, L + "nll_ulens"):
            no_factor(ctx)
            f, Mx, s = V("flux", n), V("M", n, 2), V("var", n, pos=True)
            fs, fb = pos("varfs"), pos("varfb")
            got = A(ctx.call(L + "nll_ulens", f, Mx, s, fs, fb))
            ctx.fact("scalar", got.shape == (), "shape %s" % (got.shape,))
            sv = els(s)
            C = [[sv[i] if i == j else A(0) for j in range(n)] for i in range(n)]
            lc = A(0)
            for x in sv:
                lc = lc + log(x)
            base, dA = nll(els(f), rows(Mx), C, [[fs, A(0)], [A(0), fb]], lc, log(fs) + log(fb))
            check(ctx, got, base, dA)
    for n in (1, 2) + ((3,) if ctx.thorough else ()):
        with ctx.case("general likelihood, %d data" % n, L + "nll_ulens_general"):
            no_factor(ctx)
            f, Mx, mu = V("flux", n), V("M", n, 2), V("mu", 2)
            C, lc = spd("lc", n)
            Lam, ll = spd("ll", 2)
            got = A(ctx.call(L + "nll_ulens_general", f, Mx, mat(C), mu, mat(Lam)))
            ctx.fact("scalar", got.shape == (), "shape %s" % (got.shape,))
            m = els(mu)
            r = [x - dot(row, m) for x, row in zip(els(f), rows(Mx))]
            base, dA = nll(r, rows(Mx), C, Lam, lc, ll)
            check(ctx, got, base, dA)
    with ctx.case("general likelihood, 3 data with a correlated pair", L + "nll_ulens_general"):
        no_factor(ctx)
        f, mu = V("flux", 3), V("mu", 2)
        Mx = Arr(np.array([[T.num(2), T.ONE], [T.num(5), T.ONE], [T.num(3), T.ONE]], dtype=object), "f")
        C = [[A(2), A(1), A(0)], [A(1), A(3), A(0)], [A(0), A(0), A(7)]]
        Lam = [[A(4), A(1)], [A(1), A(5)]]
        got = A(ctx.call(L + "nll_ulens_general", f, Mx, mat(C), mu, mat(Lam)))
        m = els(mu)
        r = [x - dot(row, m) for x, row in zip(els(f), rows(Mx))]
        base, dA = nll(r, rows(Mx), C, Lam, log(A(35)), log(A(19)))
        check(ctx, got, base, dA)
    for n in (2, 3) + ((4,) if ctx.thorough else ()):
        for lab, e, w in kinds(n, ctx.thorough):
            with ctx.case("line fit, %d points, %s" % (n, lab), L + "linear_chi2"):
                x, y = V("xd", n), V("yd", n)
                got = ctx.call(L + "linear_chi2", x, y) if e is None else ctx.call(L + "linear_chi2", x, y, e)
                ctx.fact("five results", isinstance(got, (tuple, list)) and len(got) == 5)
                xs, ys = els(x), els(y)
                s0, sx, sxx = dot(w, [A(1)] * n), dot(w, xs), dot(w, [p * p for p in xs])
                sy, sxy = dot(w, ys), dot(w, [p * q for p, q in zip(xs, ys)])
                D = s0 * sxx - sx * sx
                b, be, a, ae, c2 = [A(g) for g in got]
                ctx.eq("slope", b, (s0 * sxy - sx * sy) / D)
                ctx.eq("intercept", a, (sxx * sy - sx * sxy) / D)
                # squared errors, so that the sign of the (positive) determinant does not matter
                ctx.eq("squared slope error", be * be, s0 / D)
                ctx.eq("squared intercept error", ae * ae, sxx / D)
                rr = [q - a - b * p for p, q in zip(xs, ys)]
                ctx.eq("chi squared", c2, dot(w, [t * t for t in rr]))


def kinds(n, thorough):
    e = pos("err")
    one = [A(1)] * n
    yield "default error", None, one
    yield "scalar error", e, [1 / (e * e)] * n
    yield "scalar zero error", A(0), one
    v = V("err", n, pos=True)
    yield "one error per point", v, [1 / (q * q) for q in els(v)]
    z = V("err", n, pos=True)
    z.a[0] = T.ZERO
    yield "first error zero", z, [A(1)] + [1 / (q * q) for q in els(z)[1:]]
    z = V("err", n, pos=True)
    z.a[n - 1] = T.ZERO
    yield "last error zero", z, [1 / (q * q) for q in els(z)[:-1]] + [A(1)]
    if n == 2 or thorough:
        s = V("serr", n)
        yield "errors of any sign", s, [Arr(T.ite(T.gt(q.item(), T.ZERO), (1 / (q * q)).item(), T.ONE), "f") for q in els(s)]
