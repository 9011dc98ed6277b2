"""P10: root finder."""
from .common import *

FLOOR = 60
PO = P + "poly_solver:"
TOL = Fraction(1, 10 ** 12)


class Loop:
    """stand-in for the iteration: one arbitrary state is pushed through condition and body"""

    def __init__(self, ctx, n, at=None):
        self.ctx, self.n, self.runs = ctx, n, []
        self.at = at if at is not None else V("r", n, real=False)
        ctx.it.while_hook = self.hook

    def role(self, l):
        l = A(l)
        if l.dt == "b" and l.shape == (self.n,):
            return "done"
        if l.dt == "c" and l.shape == (self.n,):
            return "roots"
        if l.dt == "i" and l.shape == ():
            return "it"
        raise M.Unsupported("the iteration carries something that is neither counter, roots nor convergence flags")

    def hook(self, cond, body, init):
        leaves = I.tree_leaves(init)
        roles = [self.role(l) for l in leaves]
        if sorted(roles) != ["done", "it", "roots"]:
            raise M.Unsupported("the iteration state is organised differently: %s" % roles)
        it = iter(roles)
        mk = {"done": lambda: Arr(BV("done", self.n).a, "b", False, True),
              "roots": lambda: Arr(self.at.a, "c", False, True),
              "it": lambda: Arr(T.sym("it"), "i", False, True)}
        st = I.tree_map(lambda l: mk[next(it)](), init)
        tr = self.ctx.it.traced
        c = tr(lambda: self.ctx.it.call(cond, [st], {}))
        nx = tr(lambda: self.ctx.it.call(body, [st], {}))
        outs = I.tree_leaves(nx)
        self.ctx.it.lib.check_carry(st, nx, "while_loop")
        self.runs.append(dict(init=dict(zip(roles, leaves)), cond=c, next=dict(zip(roles, outs))))
        return st


def peval(c, z):
    r = A(0)
    for x in c:
        r = r * z + x
    return r


def polyval(ctx):
    """polynomial evaluation as an arbitrary function of coefficients and argument"""
    def h(args, kw):
        p, z = A(args[0] if args else kw["p"]), A(args[1] if len(args) > 1 else kw["x"])
        out = np.empty(z.shape, dtype=object)
        for i in np.ndindex(*z.shape):
            out[i] = opaque("polyval", p.shape, [p, Arr(z.a[i], "c")], False)
        ctx.used.add(p.shape[0])
        return Arr(out if z.shape else out[()], "c", False, True)
    ctx.used = set()
    ctx.it.ext_intercepts["jax.numpy.polyval"] = h
    # a polynomial that the code evaluates by itself is compared in expanded form
    return lambda c, z: Arr(opaque("polyval", (len(c),), list(c) + [z], False), "c") if len(c) in ctx.used else peval(c, z)


def num(b):
    return Arr(T.ite(A(b).item(), T.ONE, T.ZERO), "f")


def run(ctx):
    ctx.shapes_matter = ("incompatible shapes", "cannot reshape")
    ctx.rule("walk of poly_roots_EA with symbolic coefficients: start = Cauchy circle (1+max|c_i/c_0|) exp(2 pi i k/n) or the given guesses, none converged; one pass from an arbitrary state moves exactly the unconverged roots by p/(p' - p S) (p/p' if that denominator is below the guard) and marks those moved by at most tol; it continues while any root is unconverged and the cap is not reached; batches are solved entry by entry")
    ctx.assumptions.append("degrees 2 and 3 (thorough: up to 5); the code is uniform in the degree")
    eps = A(Fraction(10, 2 ** 52))
    for n in (2, 3, 5, 10):
        for init in (False, True):
            with ctx.case("degree %d, %s%s" % (n, "given guesses" if init else "standard start", "" if n <= 3 else ", estimates at given places, two coinciding"), PO + "poly_roots_EA"):
                c = V("c", n + 1, real=False)
                g = V("g", n, real=False)
                at = None
                if n > 3:
                    pts = [A(k * k - 3) + A(2 - k) * Arr(T.I, "c") for k in range(n - 1)]
                    at = arr(pts + pts[1:2], "c")
                loop = Loop(ctx, n, at)
                rs = [Arr(loop.at.a[k], "c") for k in range(n)]
                pv = polyval(ctx) if n > 2 else peval
                tol, cap = pos("tol"), Arr(T.sym("cap"), "i", False, False)
                out = A(ctx.call(PO + "poly_roots_EA", c, g if init else None, tol, cap))
                if len(loop.runs) != 1:
                    raise M.Unsupported("%d while loops" % len(loop.runs))
                r = loop.runs[0]
                cs = [Arr(x, "c") for x in c.a]
                # start
                for k in range(n):
                    ctx.eq("root %d starts unconverged" % k, num(A(r["init"]["done"]).a[k]), A(0))
                    got = Arr(A(r["init"]["roots"]).a[k], "c")
                    if init:
                        ctx.eq("start of root %d" % k, got, Arr(g.a[k], "c"))
                    else:
                        den = M.maximum(M.aabs(cs[0]), eps / 10)
                        m = M.aabs(cs[1]) / den
                        for x in cs[2:]:
                            m = M.maximum(m, M.aabs(x) / den)
                        ctx.eq("start of root %d" % k, got, (1 + m) * cis(A(T.mul(T.num(Fraction(2 * k, n)), T.PI))))
                ctx.eq("iteration counter starts at zero", A(r["init"]["it"]), A(0))
                # one pass
                dn = [T.bsym("done_%d" % k) for k in range(n)]
                dc = [cs[k] * (n - k) for k in range(n)]
                for k in range(n):
                    f, fp = pv(cs, rs[k]), pv(dc, rs[k])
                    s = A(0)
                    for j in range(n):
                        if j != k:
                            d = rs[k] - rs[j]
                            s = s + Arr(T.ite(M.compare("==", d, A(0)).item(), T.ZERO, (1 / d).item()), "c")
                    den = fp - f * s
                    small = M.compare("<", M.aabs(den), eps).item()
                    up = f / Arr(T.ite(small, fp.item(), den.item()), "c")
                    ctx.eq("new position of root %d" % k, Arr(A(r["next"]["roots"]).a[k], "c"), Arr(T.ite(dn[k], rs[k].item(), (rs[k] - up).item()), "c"))
                    ctx.eq("new flag of root %d" % k, num(A(r["next"]["done"]).a[k]), num(Arr(T.bor(dn[k], M.compare("<=", M.aabs(up), tol).item()), "b")))
                ctx.eq("iteration counter", A(r["next"]["it"]), Arr(T.add(T.sym("it"), T.ONE), "i"))
                ctx.eq("stop criterion", num(r["cond"]), num(Arr(T.band(T.lt(T.sym("it"), T.sym("cap")), T.bnot(T.band(*dn))), "b")))
                # result
                real = T.band(*[M.compare("<", M.aabs(M.imag(x)), 10 * tol).item() for x in cs])
                for k in range(n):
                    im = M.imag(rs[k])
                    cl = M.real(rs[k]) + Arr(T.I, "c") * Arr(T.ite(M.compare("<", M.aabs(im), 10 * tol).item(), T.ZERO, im.item()), "f")
                    ctx.eq("returned root %d" % k, Arr(out.a[k], "c"), Arr(T.ite(real, cl.item(), rs[k].item()), "c"))
    ctx_caps(ctx)
    for shape in ((), (1,), (3,), (2, 2)):
        for init in (False, True):
            with ctx.case("batch of shape %s, %s" % (shape, "given guesses" if init else "standard start"), PO + "poly_roots"):
                n = 2
                c = V("c", *shape, n + 1, real=False)
                g = V("g", *shape, n, real=False)
                log = solver(ctx, n)
                kw = dict(custom_init=True, roots_init=g) if init else {}
                out = A(ctx.call(PO + "poly_roots", c, **kw))
                need(ctx, log, "poly_roots_EA")
                ctx.fact("shape", out.shape == shape + (n,), "shape %s" % (out.shape,))
                for i in np.ndindex(*shape):
                    one = ea(Arr(c.a[i], "c"), Arr(g.a[i], "c") if init else None, n)
                    for k in range(n):
                        ctx.eq("root %d of polynomial %s" % (k, i), Arr(out.a[i + (k,)], "c"), Arr(one[k], "c"))


def ctx_caps(ctx):
    with ctx.case("default tolerance and cap", PO + "poly_roots"):
        log = solver(ctx, 2)
        ctx.call(PO + "poly_roots", V("c", 2, 3, real=False))
        need(ctx, log, "poly_roots_EA")
        for b in log:
            ctx.fact("documented tolerance", ctx.same(b["tol"], TOL), "tolerance %s" % T.show(A(b["tol"]).item()))
            ctx.fact("documented iteration cap", ctx.same(b["max_iter"], 100), "cap %s" % T.show(A(b["max_iter"]).item()))


    for init in (False, True):
        with ctx.case("explicit tolerance and cap reach every polynomial of a batch, %s" % ("given guesses" if init else "standard start"), PO + "poly_roots_EA_multi"):
            private(ctx, PO + "poly_roots_EA_multi", "coeffs_matrix", "custom_init", "initial_roots_matrix", "tol", "max_iter")
            log = solver(ctx, 2)
            tol, cap = pos("tolx"), A(T.sym("capx", True))
            ctx.call(PO + "poly_roots_EA_multi", V("c", 2, 3, real=False), init, V("g", 2, 2, real=False) if init else None, tol=tol, max_iter=cap)
            need(ctx, log, "poly_roots_EA")
            for b in log:
                ctx.eq("tolerance", A(b["tol"]), tol)
                ctx.eq("iteration cap", A(b["max_iter"]), cap)


def ea(c, g, n):
    return [opaque("EA", (n, k, g is None), [c] + ([] if g is None else [g]), False) for k in range(n)]


def solver(ctx, n):
    log = []

    def h(b):
        log.append(b)
        return Arr(np.array(ea(A(b["coeffs"]), b["initial_roots"], n), dtype=object), "c", False, True)
    ctx.it.intercepts[PO + "poly_roots_EA"] = h
    return log
