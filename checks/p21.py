"""P21: tracks of limb images are permuted, split and merged without losing or mixing images."""
import itertools

from .common import *

FLOOR = 500
EX = P + "caustics.extended_source."
LI, SE, CO = EX + "limb:", EX + "segments:", EX + "contours:"
F = Fraction
PI = Arr(T.PI, "f")
IU = Arr(T.I, "c")


def frac(name):
    p = pos(name)
    return p / (1 + p)


def items(x):
    return [Arr(t, x.dt) for t in x.a]


def holds(c):
    t = M.decide(A(c).item())
    if t is T.TRUE:
        return True
    if t is T.FALSE:
        return False
    raise M.Unsupported("condition on the result is not settled")


def sgn(x):
    p, n = M.compare(">", x, A(0)).item(), M.compare("<", x, A(0)).item()
    return Arr(T.ite(p, T.ONE, T.ite(n, T.num(-1), T.ZERO)), "f")


def clean(t):
    return M.settle(t)


# ------------------------------------------------------------------ permutation
def permuting(ctx):
    for n, m in ((3, 4), (5, 3)):
        perms = list(itertools.permutations(range(n)))
        if n == 5:
            perms = [(1, 2, 3, 4, 0), (4, 3, 2, 1, 0), (0, 2, 1, 4, 3), (3, 0, 4, 1, 2)]
        for k, sigma in enumerate(perms):
            with ctx.case("%d images followed along %d limb points, matching %s first" % (n, m, sigma), LI + "_permute_images"):
                f = private(ctx, LI + "_permute_images", "z", "z_mask", "z_parity")
                z, g, p = V("z", n, m, real=False), BV("g", n, m), V("p", n, m)
                log = []

                def match(b):
                    a, bb = A(b["a"]), A(b["b"])
                    j = len(log)
                    if j >= m:
                        raise M.Unsupported("matching repeated")
                    q = perms[(k + j * (k + 1)) % len(perms)]
                    log.append((a, bb, q))
                    return Arr(np.array([T.num(i) for i in q], dtype=object), "i", False, True)
                ctx.it.intercepts[P + "utils:match_points"] = match
                zo, go, po = (A(x) for x in ctx.it.call(f, [z, g, p], {}))
                need(ctx, log, "match_points")
                if len(log) not in (m, m - 1):
                    raise M.Unsupported("one matching per limb point")
                off = m - len(log)
                for i in range(n):
                    for j in range(m):
                        src = log[j - off][2][i] if j >= off else i
                        for name, out, inp in (("position", zo, z), ("validity", go, g), ("parity", po, p)):
                            ctx.eq("%s of image %d at limb point %d" % (name, i, j), Arr(out.a[i, j], out.dt), Arr(inp.a[src, j], inp.dt))
                for j in range(m):
                    if j < off:
                        continue
                    a, bb, _ = log[j - off]
                    prev = [z.a[i, 0] for i in range(n)] if j == 0 else [zo.a[i, j - 1] for i in range(n)]
                    ctx.eq("limb point %d is matched against the previous one in its final order" % j, Arr(a.a, a.dt), arr(prev, "c"))
                    ctx.eq("limb point %d as found" % j, Arr(bb.a, bb.dt), arr([z.a[i, j] for i in range(n)], "c"))


# ------------------------------------------------------------------ sampling of the limb
def sampling(ctx):
    w0, rho = cx("w0"), pos("rho")
    for nl, npts, niter, picks, dup in ((2, 8, 2, ([2, 0, 1], [4, 3, 1, 0, 2]), ()), (2, 8, 2, ([0, 2, 1], [4, 3, 1, 0, 2]), (0, 7, 33)), (2, 8, 2, ([1, 2, 0], [0, 4, 2, 1, 3]), ()), (2, 8, 2, ([0, 1, 2], [3, 2, 4, 0, 1]), ()), (3, 8, 4, ([2, 1, 0], [0, 1, 3, 2], [2, 0, 4, 1, 3], [5, 1, 2, 3, 0, 4]), ())):
        with ctx.case("images along the limb, %d lenses, %d samples refined in %d steps, widest gaps %s" % (nl, npts, niter, [q[-1] for q in picks]) + (", some found twice" if dup else ""), LI + "_images_of_source_limb"):
            n = nl * nl + 1
            kw = dict(a=pos("a"), e1=pos("e1")) if nl == 2 else dict(a=pos("a"), e1=pos("e1"), e2=pos("e2"), r3=pos("r3"), psi=S("psi"))
            f = private(ctx, LI + "_images_of_source_limb", "w0", "rho", "nlenses", "npts", "niter")
            where, key = [], {}

            def image(w):
                """stand-in solver: the images of a source position"""
                for k, v in enumerate(where):
                    if ctx.same(v, w):
                        return k
                where.append(w)
                return len(where) - 1

            def solve(ws):
                ws = A(ws)
                z = np.empty((n,) + ws.shape, dtype=object)
                g = np.empty((n,) + ws.shape, dtype=object)
                for j in np.ndindex(*ws.shape):
                    k = image(Arr(ws.a[j], "c"))
                    for i in range(n):
                        z[(i,) + j], g[(i,) + j] = T.sym("img%d_%d" % (i, k), False, False), T.bsym("real%d_%d" % (i, k))
                        key[z[(i,) + j]] = (i, k)
                return Arr(z, "c", False, True), Arr(g, "b", False, True)

            def lens(b, what):
                ctx.eq("lens count of the %s" % what, A(b["nlenses"]), A(nl))
                for k, v in kw.items():
                    if k in b:
                        ctx.eq("lens parameter %s of the %s" % (k, what), A(b[k]), v)

            def solver(b):
                lens(b, "image solver")
                return solve(b["w"] if "w" in b else b["w_points"])
            ctx.it.intercepts[P + "point_source:_images_point_source"] = solver
            ctx.it.intercepts[P + "point_source:_images_point_source_sequential"] = solver

            def det(b):
                lens(b, "Jacobian")
                x = A(b["z"])
                out = np.empty(x.shape, dtype=object)
                for i in np.ndindex(*x.shape):
                    if x.a[i] not in key:
                        raise M.Unsupported("Jacobian of something other than an image")
                    out[i] = T.sym("det%d_%d" % key[x.a[i]])
                return Arr(out, "f", False, True)
            ctx.it.intercepts[P + "point_source:lens_eq_det_jac"] = det
            order = list(picks)

            def argsort(args, kws):
                if not order or A(args[0]).shape != (len(order[0]),):
                    # not the choice of the widest gaps: the order of known angles
                    was, M.DECIDE[0] = M.DECIDE[0], True
                    try:
                        r = M.argsort(*args, **kws)
                    finally:
                        M.DECIDE[0] = was
                    if any(T.cval(t) is None for t in A(r).a.flat):
                        raise M.Unsupported("order of runtime values")
                    return r
                q = order.pop(0)
                return Arr(np.array([T.num(i) for i in q], dtype=object), "i", False, True)
            ctx.it.ext_intercepts["jax.numpy.argsort"] = argsort

            def uniq(args, kws):
                x = A(args[0])
                first = [i for i in range(x.size) if i not in dup]
                first += first[:1] * (x.size - len(first))
                return [Arr(x.a.reshape(-1), "c", False, True), Arr(np.array([T.num(i) for i in first], dtype=object), "i", False, True)]

            def noise(args, kws):
                lo, hi = A(kws.get("minval", A(0))), A(kws.get("maxval", A(1)))
                shape = kws.get("shape", args[1] if len(args) > 1 else ())
                shape = tuple(int(T.cval(A(v).item())) for v in shape)
                out = np.empty(shape, dtype=object)
                for i in np.ndindex(*shape):
                    out[i] = (hi if sum(i) % 2 else lo).item()      # extremes of the range
                return Arr(out, "f", False, True)
            if dup:
                ctx.it.ext_intercepts["jax.random.uniform"] = noise
            ctx.it.ext_intercepts["jax.numpy.unique"] = uniq
            ctx.it.intercepts[P + "utils:match_points"] = lambda b: Arr(np.array([T.num(i) for i in range(n)], dtype=object), "i", False, True)
            z, g, p = (A(x) for x in ctx.it.call(f, [w0, rho], dict(nlenses=nl, npts=npts, niter=niter, **kw)))
            need(ctx, where, "the image solver")
            if order:
                raise M.Unsupported("refinement steps")
            # limb angles: start, then the midpoints of the widest gaps
            m0 = npts // 2
            th = [-PI + 2 * PI * A(F(k, m0 - 1)) for k in range(m0 - 1)] + [PI - A(F(1, 10 ** 8))]
            per = (npts // 2) // niter
            for q in picks:
                wide = q[::-1][:per]
                new = {i: (th[i] + th[i + 1]) / 2 for i in wide}
                th = [t for i, x in enumerate(th) for t in ([x] + ([new[i]] if i in new else []))]
            ctx.fact("every limb point is kept", z.shape == g.shape == p.shape == (n, len(th)), "shapes %s for %d limb points" % (z.shape, len(th)))
            for j, t in enumerate(th):
                at = w0 + rho * cis(t)
                k = None
                for kk, v in enumerate(where):
                    if ctx.same(v, at):
                        k = kk
                ctx.fact("images are found for limb point %d" % j, k is not None, "no images computed for the source position at limb angle number %d" % j)
                for i in range(n):
                    img = Arr(T.sym("img%d_%d" % (i, k), False, False), "c")
                    if i * len(th) + j in dup:
                        M.DECIDE[0] = True
                        d = Arr(z.a[i, j], "c") - img
                        small = M.decide(M.compare("<=", M.real(d * M.conj(d)), A(F(1, 10 ** 12))).item())
                        M.DECIDE[0] = False
                        if small.op != "b":
                            raise M.Unsupported("size of the perturbation")
                        ctx.fact("image %d at limb point %d, found twice, moves by less than 1e-6" % (i, j), small is T.TRUE, "a repeated image is moved visibly")
                    else:
                        ctx.eq("image %d at limb point %d" % (i, j), Arr(z.a[i, j], "c"), img)
                    ctx.eq("validity of image %d at limb point %d" % (i, j), Arr(g.a[i, j], "b"), Arr(T.bsym("real%d_%d" % (i, k)), "b"))
                    ctx.eq("parity of image %d at limb point %d" % (i, j), Arr(p.a[i, j], p.dt), sgn(S("det%d_%d" % (i, k))))


# ------------------------------------------------------------------ splitting
def tracks(npt, thorough):
    """(valid, parity, jump) patterns of one track"""
    out = []
    for mask in itertools.product((0, 1), repeat=npt):
        live = [i for i in range(npt) if mask[i]]
        for sg in itertools.product((1, -1), repeat=len(live)):
            par = dict(zip(live, sg))
            out.append((mask, tuple(par.get(i, 1) for i in range(npt)), (0,) * (npt - 1)))
        for jump in itertools.product((0, 1), repeat=npt - 1):
            if any(jump) and all(mask[i] and mask[i + 1] for i in range(npt - 1) if jump[i]):
                out.append((mask, (1,) * npt, jump))
    if thorough:
        for par in itertools.product((1, -1), repeat=npt):
            for jump in itertools.product((0, 1), repeat=npt - 1):
                out.append(((1,) * npt, par, jump))
    return out


def build(rows, npt, shut=(), even=False):
    nim = len(rows)
    z = np.empty((nim, npt), dtype=object)
    g = np.empty((nim, npt), dtype=object)
    p = np.empty((nim, npt), dtype=object)
    dirn = A(F(3, 5)) + A(F(4, 5)) * IU
    for i, (mask, par, jump) in enumerate(rows):
        x = A(2 + 3 * i)
        for j in range(npt):
            if j:
                x = x + (A(F(1, 10)) + (A(F(1, 9)) if even else pos("far")) if jump[j - 1] else A(F(j + 3, 400)) if even else A(F(1, 1000)) + A(F(99, 1000)) * frac("step%d" % j))
            z[i, j] = (x * dirn).item() if mask[j] else T.sym("ghost%d_%d" % (i, j), False, False)
            g[i, j] = T.bconst(bool(mask[j]))
            p[i, j] = T.num(par[j]) if mask[j] else T.sym("ghostsign%d_%d" % (i, j))
        if i in shut:
            z[i, -1] = (Arr(z[i, 0], "c") + A(F(1, 10 ** 5)) * frac("gap") * IU).item()
    return Arr(z, "c", False, True), Arr(g, "b", False, True), Arr(p, "f", False, True)


def runs(z, g, p, rows, i):
    mask, par, jump = rows[i]
    npt = len(mask)
    out, cur = [], []
    for j in range(npt):
        if cur and (not mask[j] or par[j] != par[j - 1] or jump[j - 1]):
            out.append(cur)
            cur = []
        if mask[j]:
            cur.append((Arr(z.a[i, j], "c"), A(par[j])))
    out.append(cur)
    return [r for r in out if len(r) > 1]


def read(ctx, X, r):
    """non-zero entries of a (positions, parity) row, in order, as one block up to rotation"""
    zs, ps = [Arr(clean(t), "c") for t in X.a[r, 0]], [Arr(clean(t), "c") for t in X.a[r, 1]]
    live = [not ctx.same(t, A(0)) for t in zs]
    npt = len(zs)
    if not any(live):
        return [], True
    starts = [k for k in range(npt) if live[k] and not live[k - 1]]
    if all(live):
        return list(zip(zs, ps)), True
    one_block = len(starts) == 1
    s = starts[0]
    seq = [(zs[(s + k) % npt], ps[(s + k) % npt]) for k in range(npt) if live[(s + k) % npt]]
    return seq, one_block


def same_seq(ctx, a, b):
    return len(a) == len(b) and all(ctx.same(x[0], y[0]) and ctx.same(x[1], y[1]) for x, y in zip(a, b))


def splitting(ctx):
    for npt in (4,) + ((5,) if ctx.thorough else ()):
        pats = tracks(npt, ctx.thorough)
        for nl in (2, 3):
            n = nl * nl + 1
            groups = [pats[k:k + n] for k in range(0, len(pats), n)]
            if nl == 3:
                groups = groups[::3] if not ctx.thorough else groups
            for lot in range(0, len(groups), 6):
                with ctx.case("tracks of %d limb points, %d lenses, patterns %d-%d" % (npt, nl, lot * n, lot * n + 6 * n - 1), SE + "_get_segments"):
                    f = private(ctx, SE + "_get_segments", "z", "z_mask", "z_parity", "nlenses")
                    for rows in groups[lot:lot + 6]:
                        rows = rows + [pats[0]] * (n - len(rows))
                        z, g, p = build(rows, npt)
                        M.DECIDE[0] = True
                        try:
                            closed, open_, flag = ctx.it.call(f, [z, g, p], dict(nlenses=nl))
                            judge_split(ctx, rows, z, g, p, A(closed), A(open_), A(flag), ())
                        finally:
                            M.DECIDE[0] = False
    npt = 4
    for shut in ((0,), (1, 3), (0, 1, 2, 3, 4)):
        with ctx.case("tracks %s closed" % (shut,), SE + "_get_segments"):
            f = private(ctx, SE + "_get_segments", "z", "z_mask", "z_parity", "nlenses")
            full = ((1,) * npt, (1,) * npt, (0,) * (npt - 1))
            part = ((0, 1, 1, 1), (1,) * npt, (0,) * (npt - 1))
            rows = [full if k in shut else part for k in range(5)]
            z, g, p = build(rows, npt, shut)
            M.DECIDE[0] = True
            try:
                closed, open_, flag = ctx.it.call(f, [z, g, p], dict(nlenses=2))
                judge_split(ctx, rows, z, g, p, A(closed), A(open_), A(flag), shut)
            finally:
                M.DECIDE[0] = False


def long_tracks(ctx):
    npt = 13
    many = ((1,) * 12 + (0,), (1,) * 13, tuple(int(k % 2 == 1) for k in range(12)))
    signs = ((1,) * 13, tuple(1 if (k // 2) % 2 else -1 for k in range(13)), (0,) * 12)
    holes = (tuple(int(k % 3 != 2) for k in range(13)), (1,) * 13, (0,) * 12)
    none = ((0,) * 13, (1,) * 13, (0,) * 12)
    for nl, rows in ((2, [many, none, holes, none, none]), (2, [none, signs, none, holes, none]), (3, [many, none, signs, none, holes, none, none, none, none, none])):
        with ctx.case("tracks with many changes, %d lenses, rows %s" % (nl, [k for k, r in enumerate(rows) if r is not none]), SE + "_get_segments"):
            f = private(ctx, SE + "_get_segments", "z", "z_mask", "z_parity", "nlenses")
            z, g, p = build(rows, npt, even=True)
            M.DECIDE[0] = True
            try:
                closed, open_, flag = ctx.it.call(f, [z, g, p], dict(nlenses=nl))
                judge_split(ctx, rows, z, g, p, A(closed), A(open_), A(flag), ())
            finally:
                M.DECIDE[0] = False


def through(ctx):
    """split, then merge: a pair of images existing on part of the limb"""
    pts = loop(16, (F(3), F(2)))
    up, dn = pts[:8], pts[8:][::-1]
    for first in (0, 1, 3):
        for order in ((1, 3), (4, 0)):
            with ctx.case("pair of images in rows %s from limb point %d, split and merged" % (order, first), SE + "_get_segments"):
                f = private(ctx, SE + "_get_segments", "z", "z_mask", "z_parity", "nlenses")
                npt = 11
                z = np.empty((5, npt), dtype=object)
                g = np.empty((5, npt), dtype=object)
                p = np.empty((5, npt), dtype=object)
                for i, j in np.ndindex(5, npt):
                    z[i, j], g[i, j], p[i, j] = T.sym("ghost%d_%d" % (i, j), False, False), T.FALSE, T.sym("ghostsign%d_%d" % (i, j))
                for row, seq, sg in ((order[0], up, 1), (order[1], dn, -1)):
                    for j in range(8):
                        z[row, first + j], g[row, first + j], p[row, first + j] = seq[j].item(), T.TRUE, T.num(sg)
                M.DECIDE[0] = True
                try:
                    closed, open_, flag = ctx.it.call(f, [Arr(z, "c", False, True), Arr(g, "b", False, True), Arr(p, "f", False, True)], dict(nlenses=2))
                    h = private(ctx, CO + "_contours_from_open_segments", "segments", "max_nr_of_contours")
                    c, q = (A(x) for x in ctx.it.call(h, [open_], {}))
                    got = []
                    for r in range(c.shape[0]):
                        zs = [Arr(clean(t), "c") for t in c.a[r]]
                        while zs and ctx.same(zs[-1], A(0)):
                            zs.pop()
                        if zs:
                            got.append((zs, Arr(clean(q.a[r]), "c")))
                finally:
                    M.DECIDE[0] = False
                ctx.fact("one contour", len(got) == 1, "%d contours" % len(got))
                ctx.fact("the contour runs once through every point", any(is_curve(ctx, x, pts) for x in got), "contour differs from the curve the pair of images traces")


def judge_split(ctx, rows, z, g, p, closed, open_, flag, shut):
    flag = M.decide(M.A(flag).item())
    ctx.fact("all images closed is reported exactly then", (flag is T.TRUE) == (len(shut) == len(rows)), "reported %s with %d of %d images closed" % (T.show(flag), len(shut), len(rows)))
    want = [([(Arr(z.a[i, j], "c"), Arr(p.a[i, j], "f")) for j in range(z.shape[1])], i) for i in shut]
    have = [s for s in (read(ctx, closed, r) for r in range(closed.shape[0])) if s[0]]
    ctx.fact("one closed contour per image that closes on itself", len(have) == len(want), "%d contours for %d closed images" % (len(have), len(want)))
    for w, i in want:
        ctx.fact("closed contour of image %d" % i, any(same_seq(ctx, h, w) for h, _ in have), "closed image %d is not handed on unchanged" % i)
    want = [r for i in range(len(rows)) if i not in shut for r in runs(z, g, p, rows, i)]
    have = [s for s in (read(ctx, open_, r) for r in range(open_.shape[0])) if s[0]]
    ctx.fact("as many open pieces as there are runs of equal validity and parity without jumps", len(have) == len(want), "%d pieces for %d runs; tracks %s" % (len(have), len(want), rows))
    rest = list(have)
    for w in want:
        hit = [k for k, (h, ok) in enumerate(rest) if ok and same_seq(ctx, h, w)]
        ctx.fact("a run of %d points is one piece" % len(w), bool(hit), "no piece holds exactly the points of a run (tracks %s)" % (rows,))
        if hit:
            rest.pop(hit[0])


# ------------------------------------------------------------------ merging
CIRCLE = [(F(1), F(0)), (F(12, 13), F(5, 13)), (F(24, 34) * F(34, 34), F(24, 34)), (F(5, 13), F(12, 13))]


def loop(n, cxy, r=F(1, 10)):
    """n points on a circle-like convex curve with rational coordinates"""
    import math
    pts = []
    for k in range(n):
        x, y = F(round(1000 * math.cos(2 * math.pi * k / n)), 1000), F(round(1000 * math.sin(2 * math.pi * k / n)), 1000)
        pts.append((A(cxy[0] + r * x) + A(cxy[1] + r * y) * IU))
    return pts


def pieces(pts, cuts, flips):
    """cut a closed curve after the given points; flipped pieces are listed backwards with the other parity"""
    n = len(pts)
    out = []
    for a, b, fl in zip(cuts, cuts[1:] + [cuts[0] + n], flips):
        seq = [pts[k % n] for k in range(a, b)]
        out.append((seq[::-1], -1) if fl else (seq, 1))
    return out


def buffer(segs, slots, npt):
    X = np.empty((slots, 2, npt), dtype=object)
    X[:] = T.ZERO
    for i, (seq, sg) in enumerate(segs):
        for j, q in enumerate(seq):
            X[i, 0, j], X[i, 1, j] = q.item(), T.num(sg)
    return Arr(X, "c", False, True)


def contours_of(ctx, segs, slots, npt, **kw):
    f = private(ctx, CO + "_contours_from_open_segments", "segments", "max_nr_of_contours")
    c, p = (A(x) for x in ctx.it.call(f, [buffer(segs, slots, npt)], kw))
    out = []
    for r in range(c.shape[0]):
        zs = [Arr(clean(t), "c") for t in c.a[r]]
        while zs and ctx.same(zs[-1], A(0)):
            zs.pop()
        if zs:
            out.append((zs, Arr(clean(p.a[r]), "c")))
    return out


def is_curve(ctx, got, pts, par=1):
    """the contour runs once through the given closed curve, in either sense with the parity to match"""
    zs, sg = got
    if len(zs) != len(pts) + 1 or not ctx.same(zs[0], zs[-1]):
        return False
    n = len(pts)
    for d in (1, -1):
        if not ctx.same(sg, A(d * par)):
            continue
        for s in range(n):
            if ctx.same(zs[0], pts[s]) and all(ctx.same(zs[k], pts[(s + d * k) % n]) for k in range(n)):
                return True
    return False


def merging(ctx):
    cases = []
    for flips in itertools.product((0, 1), repeat=2):
        for order in itertools.permutations(range(2)):
            cases.append(((0, 7), flips, order))
    for flips in itertools.product((0, 1), repeat=3):
        for order in itertools.permutations(range(3)) if ctx.thorough else ((0, 1, 2), (2, 0, 1), (1, 0, 2)):
            cases.append(((1, 5, 12), flips, order))
    for flips in itertools.product((0, 1), repeat=4):
        for order in ((0, 1, 2, 3), (2, 0, 3, 1)):
            cases.append(((0, 3, 8, 13), flips, order))
    pts = loop(16, (F(3), F(2)))
    groups = {}
    for c in cases:
        groups.setdefault((len(c[0]), c[2]), []).append(c)
    for (k, order), cs in groups.items():
        with ctx.case("curve cut into %d pieces, listed in the order %s" % (k, list(order)), CO + "_contours_from_open_segments"):
            M.DECIDE[0] = True
            try:
                for cuts, flips, order in cs:
                    ps = pieces(pts, list(cuts), flips)
                    got = contours_of(ctx, [ps[i] for i in order], k + 2, 12)
                    tag = "pieces %s" % "".join("-" if x else "+" for x in flips)
                    ctx.fact("%s: one contour" % tag, len(got) == 1, "%d contours" % len(got))
                    ctx.fact("%s: the contour runs once through every point" % tag, any(is_curve(ctx, g, pts) for g in got), "merged contour differs from the curve that was cut")
            finally:
                M.DECIDE[0] = False
    other = loop(14, (F(6), F(1)))
    third = loop(12, (F(4), F(7)))
    for flips in itertools.product((0, 1), repeat=2):
        with ctx.case("three curves, pieces %s" % "".join("-" if x else "+" for x in flips), CO + "_contours_from_open_segments"):
            M.DECIDE[0] = True
            try:
                a, b, c = pieces(pts, [0, 7], flips), pieces(other, [2, 8], flips[::-1]), pieces(third, [5, 10], (0, flips[0]))
                got = contours_of(ctx, [b[0], a[1], c[1], b[1], a[0], c[0]], 7, 12, max_nr_of_contours=3)
                ctx.fact("three contours", len(got) == 3, "%d contours" % len(got))
                for k, q in enumerate((pts, other, third)):
                    ctx.fact("curve %d is one contour" % k, sum(is_curve(ctx, g, q) for g in got) == 1, "curve not recovered")
            finally:
                M.DECIDE[0] = False


def two(kind, gap, turn=(F(1), F(0))):
    """two straight segments whose tails and heads face each other over the gap; the second leaves in the given direction"""
    h = F(1, 50)
    e = A(F(3, 5)) + A(F(4, 5)) * IU
    u = e * (A(turn[0]) + A(turn[1]) * IU)
    end = A(2) + A(1) * IU
    a = [end - 4 * A(h) * e, end - 2 * A(h) * e, end]
    b0 = end + gap * e
    b = [b0, b0 + 3 * A(h) * u, b0 + 5 * A(h) * u]
    s1 = a if kind[0] == "T" else a[::-1]
    s2 = b if kind[1] == "H" else b[::-1]
    return s1, s2


def parities(ctx):
    """a merged segment carries one parity along its whole length"""
    for kind in ("TH", "HT", "HH", "TT"):
        for par1 in (1, -1):
            with ctx.case("parity along segments joined %s, parity %d" % (kind, par1), SE + "_merge_open_segments"):
                f = private(ctx, SE + "_merge_open_segments", "segments", "max_nr_of_contours")
                s1, s2 = two(kind, A(F(1, 10)) * frac("gap"))
                M.DECIDE[0] = True
                try:
                    m = A(ctx.it.call(f, [buffer([(s1, par1), (s2, -par1 if kind in ("HH", "TT") else par1)], 3, 6)], dict(max_nr_of_contours=1)))
                    zs, ps = [Arr(clean(t), "c") for t in m.a[0, 0]], [Arr(clean(t), "c") for t in m.a[0, 1]]
                    used = [k for k, z in enumerate(zs) if not ctx.same(z, A(0))]
                    ctx.fact("six points", len(used) == 6, "%d points" % len(used))
                    ctx.fact("one parity along the merged segment", all(ctx.same(ps[k], ps[used[0]]) for k in used), "parity changes along the merged segment")
                finally:
                    M.DECIDE[0] = False


def joins(ctx):
    """when two segments are joined"""
    near = lambda: A(F(1, 10)) * frac("gap")
    for kind in ("TH", "HT", "HH", "TT"):
        like = kind in ("HH", "TT")
        for par1 in (1, -1):
            for swap in (par1 == -1,):
                with ctx.case("%s ends facing, parity %d%s" % (kind, par1, ", listed the other way round" if swap else ""), SE + "_merge_open_segments"):
                    good = -par1 if like else par1
                    for what, gap, turn, par2, joined in (
                            ("straight on", near(), (F(1), F(0)), good, True),
                            ("wrong parity", near(), (F(1), F(0)), -good, False),
                            ("too far", A(F(1, 10)) + frac("gap"), (F(1), F(0)), good, False),
                            ("overlapping, ends closer than the points before them", A(F(-9, 200)), (F(1), F(0)), good, True),
                            ("overlapping, ends farther than the points before them", A(F(-6, 100)), (F(1), F(0)), good, False),
                            ("turn of less than 60 degrees", A(F(1, 100)), (F(3, 5), F(4, 5)), good, True),
                            ("turn of 61.9 degrees", A(F(1, 100)), (F(8, 17), F(15, 17)), good, False),
                            ("touching, turning back", A(F(1, 10 ** 5)) * frac("gap"), (F(-4, 5), F(3, 5)), good, True),
                            ("touching, wrong parity", A(F(1, 10 ** 5)) * frac("gap"), (F(-4, 5), F(3, 5)), -good, False)):
                        s1, s2 = two(kind, gap, turn)
                        segs = [(s1, par1), (s2, par2)]
                        M.DECIDE[0] = True
                        try:
                            got = contours_of(ctx, segs[::-1] if swap else segs, 3, 6, max_nr_of_contours=2)
                            ctx.fact("%s: %s" % (what, "joined" if joined else "left apart"), len(got) == (1 if joined else 2), "%d contours" % len(got))
                            if joined and len(got) == 1:
                                a, b = (s1 if kind[0] == "T" else s1[::-1]), (s2 if kind[1] == "H" else s2[::-1])
                                want = a + b
                                par = par1 if kind[0] == "T" else -par1
                                ctx.fact("%s: every point once, in order, with the right parity" % what, is_curve(ctx, got[0], want, par), "merged segment is wrong")
                            elif not joined and len(got) == 2:
                                for s, q in segs:
                                    ctx.fact("%s: segment kept unchanged" % what, sum(is_curve(ctx, g, s, q) for g in got) == 1, "segment changed")
                        finally:
                            M.DECIDE[0] = False


def run(ctx):
    ctx.rule("limb sampling with an opaque image solver keeps, for every limb angle, exactly the solver's positions, flags and the signs of their Jacobians; _permute_images applies one permutation per limb point to all three; tracks over enumerated validity, parity and jump patterns are split into exactly their maximal runs; curves cut into 2 to 4 pieces, listed in several orders and in either direction, are put together again point by point; two facing segments are joined exactly under the parity and geometric conditions of the connection")
    ctx.assumptions += ["tracks of 4 limb points (5 in the thorough tier), closed curves of 12 to 16 points", "no limb image is exactly zero", "limits of the joining heuristic are 0.1 (distance), 60 degrees (turn) and 1e-5 (touching), as the documentation of the code states"]
    permuting(ctx)
    sampling(ctx)
    splitting(ctx)
    long_tracks(ctx)
    through(ctx)
    merging(ctx)
    parities(ctx)
    joins(ctx)
