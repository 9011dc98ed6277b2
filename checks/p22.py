"""P22: array helpers."""
import itertools

from .common import *

FLOOR = 400
U = P + "utils:"
F = Fraction


def weak_orders(n):
    """all ways to order n items with ties: tuples of levels 0.."""
    seen = set()
    for t in itertools.product(range(n), repeat=n):
        m = sorted(set(t))
        if m == list(range(len(m))):
            seen.add(t)
    return sorted(seen)


def placed(levels, zero):
    """real values with this order, level `zero` being the number 0 (gaps arbitrary positive)"""
    out = []
    for l in levels:
        v = A(0)
        if l > zero:
            for k in range(zero, l):
                v = v + pos("up%d" % k)
        else:
            for k in range(l, zero):
                v = v - pos("dn%d" % k)
        out.append(v)
    return out


def signed_orders(n):
    """order types of n reals together with zero"""
    for t in weak_orders(n + 1):
        yield t[:n], t[n]


def idx(ctx, label, got, want):
    ctx.eq(label, Arr(A(got).item(), "i"), A(want))


def run(ctx):
    ctx.shapes_matter = ("incompatible shapes", "cannot reshape")
    ctx.rule("order helpers: for every order type (ties and position of zero included) of up to 3 (thorough: 4) arbitrary reals the result is the required element or index; index helpers: for arbitrary entries the result is the decision list over the zero tests; matching: for every order type of the distances of each row the result is the greedy choice; trapezoid: for every tail index with zero padding")
    ctx.assumptions.append("array lengths up to 4 (matching: up to 3 points); helpers are uniform in the length; entries are finite numbers")
    nmax = 4 if ctx.thorough else 3
    for n in range(1, 5):
        kinds = {"real": V("x", n), "complex": V("c", n, real=False), "boolean": BV("b", n)}
        for kn, x in kinds.items():
            zero = [n_.item() if isinstance(n_, Arr) else n_ for n_ in (M.compare("==", x, 0).a if kn != "boolean" else [T.bnot(t) for t in x.a])]

            def first(conds):
                r = T.ZERO
                for k in range(n - 1, -1, -1):
                    r = T.ite(conds[k], T.num(k), r)
                return Arr(r, "i")

            def last(conds):
                r = T.ZERO
                for k in range(n):
                    r = T.ite(conds[k], T.num(k), r)
                return Arr(r, "i")
            nz = [T.bnot(t) for t in zero]
            for fn, want in (("first_nonzero", first(nz)), ("last_nonzero", last(nz)), ("first_zero", first(zero))):
                with ctx.case("%s, %d %s entries" % (fn, n, kn), U + fn):
                    idx(ctx, "index", ctx.call(U + fn, x), want)
    for fn in ("first_nonzero", "last_nonzero", "first_zero"):
        for axis in (0, 1):
            with ctx.case("%s of a matrix along axis %d" % (fn, axis), U + fn):
                x = V("m", 2, 2)
                try:
                    got = A(ctx.call(U + fn, x, axis=axis))
                except M.PyRaise as e:
                    if e.kind == "TypeError" and "scalar" in str(e.msg):
                        ctx.fact("searching a matrix along one axis", False, "the documented axis argument raises TypeError: %s" % e.msg, e.loc)
                    raise
                ctx.fact("one index per line", got.shape == (2,), "shape %s" % (got.shape,))
                for k in range(2):
                    line = x.a[:, k] if axis == 0 else x.a[k]
                    z = [T.eq(t, T.ZERO) for t in line]
                    if fn == "first_zero":
                        w = T.ite(z[0], T.ZERO, T.ite(z[1], T.ONE, T.ZERO))
                    elif fn == "first_nonzero":
                        w = T.ite(z[0], T.ite(z[1], T.ZERO, T.ONE), T.ZERO)
                    else:
                        w = T.ite(z[1], T.ZERO, T.ONE)
                    ctx.eq("line %d" % k, Arr(got.a[k], "i"), Arr(w, "i"))
    M.DECIDE[0] = True
    try:
        ordered(ctx, nmax)
        matching(ctx)
    finally:
        M.DECIDE[0] = False
    trapezoid(ctx)


def ordered(ctx, nmax):
    for n in range(1, nmax + 1):
        for fn in ("min_zero_avoiding", "max_zero_avoiding", "mean_zero_avoiding", "sparse_argsort"):
            with ctx.case("%s, %d entries" % (fn, n), U + fn):
                for lv, z in signed_orders(n):
                    xs = placed(lv, z)
                    got = ctx.call(U + fn, arr(xs))
                    live = [i for i in range(n) if lv[i] != z]
                    tag = "order %s, zero at %d" % (lv, z)
                    if fn == "sparse_argsort":
                        got = A(got)
                        ctx.fact("length", got.shape == (n,), "shape %s" % (got.shape,))
                        p = [T.cval(t) for t in got.a]
                        if any(v is None for v in p):
                            raise M.Unsupported("the permutation is not settled for %s" % tag)
                        p = [int(v) for v in p]
                        ctx.fact("%s: a permutation" % tag, sorted(p) == list(range(n)), "indices %s" % p)
                        head = p[:len(live)]
                        ctx.fact("%s: non-zero entries first, ascending" % tag, sorted(head) == live and all(lv[a] <= lv[b] for a, b in zip(head, head[1:])), "indices %s for levels %s" % (p, lv))
                    else:
                        if not live:
                            want = A(0)
                        elif fn == "min_zero_avoiding":
                            want = xs[min(live, key=lambda i: lv[i])]
                        elif fn == "max_zero_avoiding":
                            want = xs[max(live, key=lambda i: lv[i])]
                        else:
                            want = A(0)
                            for i in live:
                                want = want + xs[i]
                            want = want / len(live)
                        ctx.eq(tag, Arr(A(got).item(), "f"), want)


def matching(ctx):
    for n in (1, 2, 3):
        a, b = V("a", n, real=False), V("b", n, real=False)
        rows = weak_orders(n)
        combos = list(itertools.product(rows, repeat=n))
        if n == 3:
            strict = [r for r in rows if len(set(r)) == n]
            tied = [r for r in rows if len(set(r)) < n]
            combos = list(itertools.product(strict, repeat=n)) + [tuple(t) for t in itertools.product(tied, strict[:2], strict[3:5])] + [tuple(t) for t in itertools.product(strict[:3], tied, strict[4:5])]
            if ctx.thorough:
                combos = list(itertools.product(rows, repeat=n))
        with ctx.case("match_points, %d points" % n, U + "match_points"):
            for combo in combos:
                dist = {}

                def h(args, kw, combo=combo):
                    x = A(args[0])
                    out = np.empty(x.shape, dtype=object)
                    for k in np.ndindex(*x.shape):
                        hit = None
                        for i, j in itertools.product(range(n), repeat=2):
                            d = Arr(a.a[i], "c") - Arr(b.a[j], "c")
                            if x.a[k] is d.item() or ctx.same(Arr(x.a[k], "c"), d) or ctx.same(Arr(x.a[k], "c"), -1 * d):
                                hit = (i, j)
                        if hit is None:
                            raise M.Unsupported("modulus of something other than a difference of a candidate and a point")
                        i, j = hit
                        v = pos("row%d" % i)
                        for k2 in range(i):     # rows lie one above the other, so comparisons across rows are settled too
                            v = v + pos("row%d" % k2)
                            for l in range(n):
                                v = v + pos("gap%d_%d" % (k2, l))
                        for l in range(combo[i][j]):
                            v = v + pos("gap%d_%d" % (i, l))
                        out[k] = v.item()
                    dist[0] = True
                    return Arr(out, "f", False, True)
                ctx.it.ext_intercepts["jax.numpy.abs"] = h
                ctx.it.ext_intercepts["jax.numpy.absolute"] = h
                got = A(ctx.call(U + "match_points", a, b))
                if not dist:
                    raise M.Unsupported("distances are not formed with a modulus")
                ctx.fact("length", got.shape == (n,), "shape %s for %d points" % (got.shape, n))
                used, ok = [], True
                p = [T.cval(M.settle(t)) for t in got.a]
                if any(v is None for v in p):
                    raise M.Unsupported("matching is not settled for order %s" % (combo,))
                for i, v in enumerate(int(v) for v in p):
                    free = [j for j in range(n) if j not in used]
                    ctx.fact("order %s: candidate of point %d is unused" % (combo, i), v in free, "candidate %d is used twice or out of range (%s)" % (v, p))
                    if v in free:
                        ctx.fact("order %s: point %d takes the closest unused candidate" % (combo, i), combo[i][v] == min(combo[i][j] for j in free), "candidate %d at rank %d, unused ranks %s" % (v, combo[i][v], [combo[i][j] for j in free]))
                    used.append(v)


def trapezoid(ctx):
    for n in (2, 3, 4):
        with ctx.case("trapz_zero_avoiding, %d samples, the last one excluded" % n, U + "trapz_zero_avoiding"):
            y, x = V("y", n), V("x", n)
            want = A(0)
            for k in range(n - 2):
                want = want + (Arr(y.a[k], "f") + Arr(y.a[k + 1], "f")) * (Arr(x.a[k + 1], "f") - Arr(x.a[k], "f")) / 2
            ctx.eq("integral over all samples but the last", Arr(A(ctx.call(U + "trapz_zero_avoiding", y, x, A(n - 2))).item(), "f"), want)
        for tail in range(n):
            with ctx.case("trapz_zero_avoiding, %d samples, tail %d" % (n, tail), U + "trapz_zero_avoiding"):
                ys, xs = V("y", n), V("x", n)
                y = arr([Arr(ys.a[k], "f") if k <= tail else A(0) for k in range(n)])
                x = arr([Arr(xs.a[k], "f") if k <= tail else A(0) for k in range(n)])
                want = A(0)
                for k in range(tail):
                    want = want + (Arr(ys.a[k], "f") + Arr(ys.a[k + 1], "f")) * (Arr(xs.a[k + 1], "f") - Arr(xs.a[k], "f")) / 2
                for t in (A(tail), Arr(T.num(tail), "i", False, True)):
                    ctx.eq("integral over the first %d samples" % (tail + 1), Arr(A(ctx.call(U + "trapz_zero_avoiding", y, x, t)).item(), "f"), want)
