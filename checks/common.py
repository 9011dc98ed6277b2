"""Symbols, stand-ins and reference formulas shared by the checks."""
import numpy as np
from fractions import Fraction

from sa import terms as T
from sa import model as M
from sa import nf
from sa import interp as I
from sa.model import Arr, A

P = "microjax."


def S(name, pos=False, real=True, weak=False):
    """scalar symbol"""
    return Arr(T.sym(name, real, pos), "f" if real else "c", weak, False)


def pos(name, weak=False):
    return S(name, True, True, weak)


def cx(name):
    return S(name, False, False)


def V(name, *shape, real=True, pos=False, isnp=False):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = T.sym("%s_%s" % (name, "_".join(map(str, i))), real, pos)
    return Arr(a, "f" if real else "c", False, False, isnp)


def BV(name, *shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = T.bsym("%s_%s" % (name, "_".join(map(str, i))))
    return Arr(a, "b", False, False)


def arr(nodes, dt="f"):
    a = np.empty((len(nodes),), dtype=object)
    for i, n in enumerate(nodes):
        a[i] = n.item() if isinstance(n, Arr) else n
    return Arr(a, dt)


def opaque(name, data, args, real=True):
    """uninterpreted application with congruence"""
    ns = []
    for a in args:
        if a is None or isinstance(a, (str,)):
            continue
        a = A(a)
        for n in a.a.flat:
            ns.append(T.ite(n, T.ONE, T.ZERO) if n.isbool else T.tonum(n))
    return T.fn(name, ns, data=data, real=real)


def opaque_arr(name, data, args, shape, real=True):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = opaque(name, (data, i), args, real)
    return Arr(out, "f" if real else "c", False, True)


# ---------------------------------------------------------------- lens physics (reference)
def one(x):
    return A(x)


def lens_masses(nl, e1=None, e2=None):
    if nl == 1:
        return [A(1)]
    if nl == 2:
        return [e1, 1 - e1]
    return [e1, e2, 1 - e1 - e2]


def lens_positions(nl, a=None, r3=None, psi=None):
    if nl == 1:
        return [A(0)]
    if nl == 2:
        return [a, -a]
    return [a, -a, r3 * cis(psi)]


def cis(psi):
    x = A(psi)
    return Arr(T.exp(T.mul(T.I, x.item())), "c")


def deflect(z, ms, ps):
    """sum_i m_i / (z - p_i)"""
    r = A(0)
    for m, p in zip(ms, ps):
        r = r + m / (z - p)
    return r


def lens_map(z, ms, ps):
    return z - deflect(M.conj(z), ms, [M.conj(p) for p in ps])


def dwdzbar(zb, ms, ps):
    r = A(0)
    for m, p in zip(ms, ps):
        r = r + m / ((zb - M.conj(p)) * (zb - M.conj(p)))
    return r


def det_jac(z, ms, ps):
    g = dwdzbar(M.conj(z), ms, ps)
    return 1 - M.real(g * M.conj(g))


def selftest(ctx):
    """positive examples: the decision procedure must tell these apart on every run"""
    x, y = T.sym("x"), T.sym("y")
    z = T.sym("z", False)
    ok = [
        (T.power(T.add(x, y), 2), T.add(T.mul(x, x), T.mul(T.num(2), x, y), T.mul(y, y))),
        (T.div(T.ONE, T.sub(x, y)), T.neg(T.div(T.ONE, T.sub(y, x)))),
        (T.mul(z, T.conj(z)), T.mul(T.absv(z), T.absv(z))),
        (T.ite(T.gt(x, y), x, y), T.fn("max", (x, y))),
        (T.add(T.power(T.fn("sin", (x,)), 2), T.power(T.fn("cos", (x,)), 2)), T.ONE),
    ]
    bad = [
        (T.power(T.add(x, y), 2), T.add(T.mul(x, x), T.mul(y, y))),
        (T.div(T.ONE, T.sub(x, y)), T.div(T.ONE, T.sub(y, x))),
        (T.ite(T.gt(x, y), x, y), T.ite(T.gt(x, y), y, x)),
        (T.ite(T.gt(x, T.ZERO), T.ONE, T.ZERO), T.ite(T.ge(x, T.ZERO), T.ONE, T.ZERO)),
        (z, T.conj(z)),
    ]
    z0 = lambda a, b: nf.is_zero(nf.padd(nf.poly(a), nf.poly(b), -1))
    for a, b in ok:
        assert z0(a, b), "selftest: equality not recognised"
    for a, b in bad:
        assert not z0(a, b), "selftest: difference not recognised"


# ---------------------------------------------------------------- polynomials (descending coefficient lists)
def padd_(p, q):
    n = max(len(p), len(q))
    p = [A(0)] * (n - len(p)) + list(p)
    q = [A(0)] * (n - len(q)) + list(q)
    return [x + y for x, y in zip(p, q)]


def pmul(p, q):
    out = [A(0)] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            out[i + j] = out[i + j] + x * y
    return out


def pscale(c, p):
    return [c * x for x in p]


def pprod(ps):
    r = [A(1)]
    for p in ps:
        r = pmul(r, p)
    return r


def image_polynomial(w, ms, ps):
    """coefficients in z (highest first) of the lens equation with conj(z) eliminated:
    conj(z) - conj(p_j) = N_j/D,  D = prod(z-p_i);   (z-w) prod N_j - sum_j m_j D prod_{k!=j} N_k"""
    lin = [[A(1), -p] for p in ps]
    D = pprod(lin)
    M_ = [A(0)]
    for i, m in enumerate(ms):
        M_ = padd_(M_, pscale(m, pprod([l for k, l in enumerate(lin) if k != i])))
    wb = M.conj(w)
    N = [padd_(pscale(wb - M.conj(p), D), M_) for p in ps]
    out = pmul([A(1), -w], pprod(N))
    for j, m in enumerate(ms):
        out = padd_(out, pscale(-1 * m, pmul(D, pprod([N[k] for k in range(len(ms)) if k != j]))))
    return out


def critical_polynomial(phase, ms, ps):
    """prod (z-p_i)^2 * phase - sum m_i prod_{k!=i} (z-p_k)^2"""
    sq = [pprod([[A(1), -p]] * 2) for p in ps]
    out = pscale(phase, pprod(sq))
    for i, m in enumerate(ms):
        out = padd_(out, pscale(-1 * m, pprod([l for k, l in enumerate(sq) if k != i])))
    return out


# ---------------------------------------------------------------- probing
import contextlib


@contextlib.contextmanager
def plain(ctx):
    """evaluate analysed code without the stand-ins of the current case"""
    it = ctx.it
    sv = (it.intercepts, it.ext_intercepts, it.while_hook, it.call_hook)
    it.intercepts, it.ext_intercepts, it.while_hook, it.call_hook = {}, {}, None, None
    try:
        yield
    finally:
        it.intercepts, it.ext_intercepts, it.while_hook, it.call_hook = sv


CONTROL = {"w", "z", "z_mask", "w_points", "w_points_shifted", "w0", "w_center", "w_center_shifted", "shifted", "rho", "nlenses", "u1",
           "npts", "niter", "delta_mu_multi", "custom_init", "z_init", "contour", "tail_idx", "r0", "th_values", "c_m", "gamma", "c_f", "rho_min", "c_p"}


def same_lens(ctx, label, nl, b, ms, ps):
    """the lens keywords of a captured call describe the required lens (judged through lens_eq itself)"""
    kw = {k: v for k, v in b.items() if k not in CONTROL}
    z = cx("probe")
    with plain(ctx):
        got = ctx.call(P + "point_source:lens_eq", z, nlenses=nl, **kw)
    ctx.eq(label, got, lens_map(z, ms, ps))


def need(ctx, log, what):
    if not log:
        raise M.Unsupported("%s is not reached in this form" % what)


def private(ctx, ref, *names):
    """a private helper is only judged on its own while it still has the interface the rule speaks about"""
    f = ctx.it.get(ref)
    g, n = f, 0
    while not isinstance(g, I.Func) and n < 10:
        g, n = getattr(g, "fn", None) or getattr(g, "f", None), n + 1
    if not isinstance(g, I.Func):
        raise M.Unsupported("%s is not a plain function any more" % ref)
    a = g.node.args
    have = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if have[:len(names)] != list(names):
        raise M.Unsupported("%s has parameters %s" % (ref, have))
    return f
