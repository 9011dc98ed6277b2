"""P18: polar regions."""
import itertools

from .common import *

FLOOR = 300
MA = P + "inverse_ray.merge_area:"
F = Fraction
PI = Arr(T.PI if hasattr(T, "PI") else T.sym("pi", True, True), "f")


def frac(name):
    """an arbitrary number strictly between 0 and 1"""
    p = pos(name)
    return p / (1 + p)


class Scene:
    """limb images in given polar cells.  cells: (r bin, r fraction, theta bin, theta fraction), None for a spurious
    image anywhere, or a cell followed by False for a spurious image there.  Radial extremes have fraction 0 in the first and 1 in the last bin; all other fractions lie strictly inside."""

    def __init__(self, cells, br, bt, wide=True, low=False, fixed=False):
        self.br, self.bt, self.cells = br, bt, cells
        self.rho, self.mr = pos("rho"), pos("mr") + A(F(1, 100))
        self.m = self.rho * self.mr
        step = 3 * self.m + pos("E") if wide else self.m / (br * (2 + pos("E")))
        L = A(F(1, 100)) + pos("l")
        if low:     # the margin reaches past the origin
            self.mr = L * (1 + pos("E2")) / self.rho
            self.m = self.rho * self.mr
            step = 3 * self.m + pos("E") if wide else L * pos("E2") / (br * (2 + pos("E")))
        else:
            L = L + self.m
        self.mdeg = A(F(36, bt)) * frac("mt")
        if fixed:   # given numbers: distances decide between other scales of the margins too
            self.rho, self.mr, self.mdeg = A(F(1, 10)), A(F(1, 2)), A(F(3))
            self.m = self.rho * self.mr
            step = A(F(2, 7)) if wide else A(F(1, 40 * br))
            L = A(F(101, 100))
        self.mt = self.mdeg * PI / 180
        self.r, self.th, self.mask = [], [], []
        for k, c in enumerate(cells):
            self.mask.append(c is not None and len(c) == 4)
            if c is None:
                self.r.append(pos("spurious_r%d" % k))
                self.th.append(S("spurious_th%d" % k))
                continue
            self.r.append(L + step * (A(c[0]) + c[1]))
            self.th.append(2 * PI / bt * (A(c[2]) + c[3]))
        self.z = V("image", len(cells), real=False)

    def install(self, ctx):
        used = set()

        def where(x):
            if x is T.ZERO:
                return None
            for k in range(len(self.cells)):
                if x is self.z.a[k]:
                    return k
            raise M.Unsupported("polar coordinate of something other than a limb image")

        def radius(args, kw):
            x = A(args[0])
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                k = where(x.a[i])
                out[i] = T.ZERO if k is None else self.r[k].item()
            used.add("r")
            return Arr(out, "f", False, True)

        def angle_of(k):
            if k is None:
                return T.ZERO
            c = self.cells[k]
            t = self.th[k]
            return (t - 2 * PI if c is not None and 2 * c[2] >= self.bt else t).item()

        def angle(args, kw):
            x = A(args[0])
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = angle_of(where(x.a[i]))
            used.add("th")
            return Arr(out, "f", False, True)

        def arctan2(args, kw):
            y, x = A(args[0]), A(args[1])
            out = np.empty(x.shape, dtype=object)
            re, im = A(M.real(self.z)), A(M.imag(self.z))
            for i in np.ndindex(*x.shape):
                hit = None
                for k in range(len(self.cells)):
                    if x.a[i] is re.a[k] and y.a[i] is im.a[k]:
                        hit = k
                if hit is None and not (x.a[i] is T.ZERO and y.a[i] is T.ZERO):
                    raise M.Unsupported("angle of something other than a limb image")
                out[i] = angle_of(hit)
            used.add("th")
            return Arr(out, "f", False, True)
        ext = ctx.it.ext_intercepts
        for n in ("jax.numpy.abs", "jax.numpy.absolute"):
            ext[n] = radius
        ext["jax.numpy.angle"] = angle
        ext["jax.numpy.arctan2"] = arctan2
        return used


def truth(c):
    t = M.decide(A(c).item())
    return True if t is T.TRUE else False if t is T.FALSE else None


def holds(op, a, b):
    return truth(M.compare(op, a, b))


def le(a, b):
    v = holds("<=", a, b)
    if v is None:
        raise M.Unsupported("comparison of a region bound is not settled")
    return v


def check_scene(ctx, sc, nl, tag, shape=None):
    used = sc.install(ctx)
    z, mask = sc.z, arr([T.TRUE if m else T.FALSE for m in sc.mask], "b")
    if shape is not None:
        z, mask = M.reshape(z, shape), M.reshape(mask, shape)
    got = ctx.call(MA + "define_regions", z, mask, sc.rho,
                   bins_r=sc.br, bins_th=sc.bt, margin_r=sc.mr, margin_th=sc.mdeg, nlenses=nl)
    if used != {"r", "th"}:
        raise M.Unsupported("polar coordinates of the limb images are formed in an unknown way")
    R, TH = A(got[0]), A(got[1])
    ctx.fact("%s: two bounds per region" % tag, len(R.shape) == 2 and R.shape[1] == 2 and R.shape == TH.shape, "shapes %s, %s" % (R.shape, TH.shape))
    g = lambda X, i, j: Arr(M.settle(X.a[i, j]), "f")
    regions = []
    for i in range(R.shape[0]):
        lo, hi, t0, t1 = g(R, i, 0), g(R, i, 1), g(TH, i, 0), g(TH, i, 1)
        if le(hi, lo) or le(t1, t0):
            ctx.fact("%s: empty slot %d has no width" % (tag, i), le(lo, hi) and le(t0, t1), "negative width")
            continue
        regions.append((lo, hi, t0, t1))
    genuine = [k for k, m in enumerate(sc.mask) if m]
    inside, rings = {}, set()
    for n, (lo, hi, t0, t1) in enumerate(regions):
        if ctx.same(t1 - t0, 2 * PI):
            rings.add(n)
        else:
            ctx.fact("%s: region %d goes round at most once" % (tag, n), le(t1 - t0, 2 * PI), "region spans more than a full turn, so that its ends are counted twice")
    for k in genuine:
        r, th = sc.r[k], sc.th[k]
        home = []
        for n, (lo, hi, t0, t1) in enumerate(regions):
            if not (le(lo, r) and le(r, hi)):
                continue
            if n in rings:
                home.append((n, 0, th))
                continue
            for turn in (0, -1, 1):
                t = th + 2 * turn * PI
                if le(t0, t) and le(t, t1):
                    home.append((n, turn, t))
        ctx.fact("%s: genuine limb image %d lies in exactly one region" % (tag, k), len(home) == 1, "%d of %d regions contain image %d (r bin %s, theta bin %s)" % (len(home), len(regions), k, sc.cells[k][0], sc.cells[k][2]))
        if len(home) != 1:
            continue
        n, turn, t = home[0]
        lo, hi, t0, t1 = regions[n]
        inside.setdefault(n, []).append((k, turn))
        ok = le(lo, r - sc.m) or le(lo, A(0))
        ctx.fact("%s: radial margin around image %d" % (tag, k), ok and le(r + sc.m, hi), "region does not extend margin_r*rho beyond image %d" % k)
        ctx.fact("%s: angular margin around image %d" % (tag, k), n in rings or le(t0, t - sc.mt) and le(t + sc.mt, t1), "region does not extend margin_th degrees beyond image %d" % k)
    w = 2 * PI / sc.bt
    for n, (lo, hi, t0, t1) in enumerate(regions):
        mine = inside.get(n, [])
        ctx.fact("%s: region %d contains a genuine image" % (tag, n), bool(mine), "region %d covers no limb image" % n)
        if not mine:
            continue
        clipped = holds("==", lo, A(0)) is True or ctx.same(lo, A(0))
        ctx.fact("%s: inner radius of region %d" % (tag, n), clipped and any(le(sc.r[k], sc.m) for k in genuine) or any(ctx.same(lo, sc.r[k] - sc.m) for k in genuine),
                 "inner radius is not a limb radius less the margin")
        ctx.fact("%s: outer radius of region %d" % (tag, n), any(ctx.same(hi, sc.r[k] + sc.m) for k in genuine), "outer radius is not a limb radius plus the margin")
        ends = [sc.cells[k][2] + turn * sc.bt for k, turn in mine]
        b0, b1 = min(ends), max(ends)
        occupied = {sc.cells[k][2] for k in genuine} | (set() if all(sc.mask) else {0})    # spurious images count as lying at angle zero
        while (b0 - 1) % sc.bt in occupied and b0 > b1 - sc.bt:
            b0 -= 1
        while (b1 + 1) % sc.bt in occupied and b1 < b0 + sc.bt:
            b1 += 1
        b0k, b1k = b0, b1
        b0, b1 = w * b0, w * (b1 + 1)
        ctx.fact("%s: angles of region %d reach no further than the adjoining occupied bins plus margin" % (tag, n), n in rings and b1k - b0k >= sc.bt - 1 or n not in rings and le(b0 - sc.mt, t0) and le(t1, b1 + sc.mt), "region extends beyond the occupied angular bins and the margin")


def scenes(thorough):
    """(family, tag, scene arguments, number of lenses, shape)"""
    f, h = A(F(1, 3)), A(F(3, 5))
    for wide in (True, False):
        kind = "separate radial clusters" if wide else "radial ranges overlapping by the margin"
        for nl in (2, 3):
            for ta, tb in itertools.product(range(4), repeat=2):
                yield kind + ", two images, %d lenses" % nl, "angular bins %d, %d" % (ta, tb), ([(0, 0, ta, f), (3, 1, tb, h)], 4, 4, wide), nl, None
        for tc in range(4):
            for k in range(4):
                for ta, tb in itertools.product(range(4), repeat=2):
                    cells = [(0, 0, ta, f), (3, 1, tb, f), (k, h, tc, h)]
                    yield kind + ", three images, third in angular bin %d" % tc, "radial bin %d, angular bins %d, %d" % (k, ta, tb), (cells, 4, 4, wide), 2, None
        for ta, tb in itertools.product(range(4), repeat=2):
            cells = [(0, 0, ta, frac("f1")), (3, 1, tb, frac("f1") / 2), (2, frac("f2"), 0, (1 + frac("f1")) / 2)]
            yield kind + ", arbitrary places inside the bins", "angular bins %d, %d" % (ta, tb), (cells, 4, 4, wide), 2, None
            cells = [(0, 0, ta, f), (3, 1, tb, f)]
            yield kind + ", innermost image closer to the origin than the margin", "angular bins %d, %d" % (ta, tb), (cells, 4, 4, wide, True), 2, None
            cells = [None, (0, 0, ta, f), None, (3, 1, tb, f), (3, h, 3, h), None]
            yield kind + ", spurious images between genuine ones", "angular bins %d, %d" % (ta, tb), (cells, 4, 4, wide), 2, (2, 3)
            cells = [(2, f, tb, f, False), (0, 0, ta, f), (4, 1, ta, f), (0, 0, (ta + 2) % 4, h, False), (2, h, (tb + 1) % 4, h, False)]
            yield kind + ", spurious images in cells of their own", "angular bins %d, %d" % (ta, tb), (cells, 5, 4, wide), 2, None
            cells = [(0, 0, ta, f), (0, 0, tb, h), (2, 1, 0, f), (2, 1, 4, h)]
            yield kind + ", images of equal radius", "angular bins %d, %d" % (ta, tb), (cells, 3, 5, wide), 2, (2, 2)
            if tb <= ta:
                cells = [(0, 0, ta, f), (3, 1, tb, h)]
                yield kind + ", source radius 0.1, margins 0.5 and 3 degrees", "angular bins %d, %d" % (ta, tb), (cells, 4, 4, wide, False, True), 2, None
        for ta in range(3):
            cells = [(0, 0, ta, f)]
            yield kind + ", one radius", "angular bin %d" % ta, (cells, 4, 3, wide), 2, None
            cells = [(0, 0, ta, f), (0, 0, 2, h), None]
            yield kind + ", one radius", "angular bins %d, 2" % ta, (cells, 4, 3, wide), 2, None
        for ta in range(5):
            # an image astride the zero angle together with others of the same and of another radius
            cells = [(0, 0, 0, f), (0, h, 5, f), (6, 1, 5, h), (6, f, ta, f), (3, f, 2, f)]
            yield kind + ", images astride the zero angle", "further image in angular bin %d" % ta, (cells, 7, 6, wide), 2, None
            cells = [(0, 0, 5, f), (0, h, 3, f), (6, 1, 0, h), (6, f, ta, f), (3, f, 5, f)]
            yield kind + ", images astride the zero angle", "second arrangement, further image in angular bin %d" % ta, (cells, 7, 6, wide), 2, None
        cells = [(0, 0, k, f) for k in range(4)] + [(3, 1, k, h) for k in (0, 2)]
        yield kind + ", full ring", "and two further images", (cells, 4, 4, wide), 2, None
        cells = [(0, 0, k, f) for k in range(4)] + [(3, 1, k, h) for k in range(4)]
        yield kind + ", full ring", "two rings", (cells, 4, 4, wide), 2, None
        cells = [(0, 0, k, f) for k in range(5)]
        yield kind + ", full ring", "one radius", (cells, 4, 5, wide), 2, None
        cells = [(0, 0, k, f) for k in (0, 1, 3, 4)] + [(3, 1, k, h) for k in (1, 2, 3)]
        yield kind + ", full ring", "open ring", (cells, 4, 5, wide), 2, None
    # as many regions as there can be images
    for nl, n in ((2, 5), (3, 9)):
        if nl == 3 and not thorough:
            n = 7
        cells = [(2 * k, 0 if k == 0 else 1 if k == n - 1 else f, 0, f) for k in range(n)]
        yield "as many images as the lens can have, %d lenses" % nl, "different radii, first angular bin", (cells, 2 * n - 1, 3, True), nl, None
        cells = [(2 * k, 0 if k == 0 else 1 if k == n - 1 else f, (2 * k) % 3, f) for k in range(n)]
        yield "as many images as the lens can have, %d lenses" % nl, "different radii and angles", (cells, 2 * n - 1, 3, True), nl, None
        n = min(n, 7) if not thorough else n
        cells = [(k % 2, k % 2, 2 * k, f) for k in range(n)]
        yield "as many images as the lens can have, %d lenses" % nl, "different angles", (cells, 2, 2 * n, False), nl, None
    if thorough:
        for cells_r in itertools.product(range(4), repeat=2):
            for th in itertools.product(range(4), repeat=4):
                cells = [(0, 0, th[0], f), (3, 1, th[1], h), (cells_r[0], f, th[2], h), (cells_r[1], h, th[3], f)]
                yield "four images, radial bins %d and %d" % cells_r, "angular bins %s" % (th,), (cells, 4, 4, True), 2, None


def run(ctx):
    ctx.rule("define_regions is valued over limb images placed in given polar cells (all pairs and triples of cells of a 4x4 grid, both regimes of the radial margin, spurious images, wrap-around, full capacity), positions, margins and source size being arbitrary; for each scene every genuine image must lie in exactly one region, together with its margins, and each region must contain a genuine image, end at a limb radius plus or minus the margin and reach no further than the adjoining occupied angular bins plus the angular margin")
    ctx.assumptions += ["images are farther than 0.01 from the origin, lie strictly inside the angular bins and are closer than 1e4 to the origin", "margins are positive; the angular margin is smaller than a tenth of a bin; two radial regimes: bins wider than three margins, or all bins together narrower than half a margin",
                        "no more separate clusters than images the lens can have (an image passing through the polar origin can produce more: recorded in DESIGN.md)"]
    fams = {}
    for fam, tag, args, nl, shape in scenes(ctx.thorough):
        fams.setdefault(fam, []).append((tag, args, nl, shape))
    M.DECIDE[0] = True
    M.BIG[0] = 10 ** 4
    try:
        for fam, items in fams.items():
            with ctx.case(fam, MA + "define_regions"):
                for tag, args, nl, shape in items:
                    check_scene(ctx, Scene(*args), nl, tag, shape)
    finally:
        M.DECIDE[0] = False
        M.BIG[0] = None
    for nl in (1, 4):
        with ctx.case("%d lenses" % nl, MA + "define_regions"):
            ctx.raises("unsupported lens count", "ValueError", lambda: ctx.call(MA + "define_regions", V("z", 3, real=False), BV("g", 3), pos("rho"), nlenses=nl))
