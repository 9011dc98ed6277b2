"""Documented calls of the package at the level of types: (label, callable, result types)."""
import multiprocessing
import os
import resource
import time

import numpy as np

from .common import *
from sa import check as CH
from sa import shape

F_, C_, B_, I_ = "f", "c", "b", "i"
LENS = {1: {}, 2: dict(s=S("s"), q=S("q")), 3: dict(s=S("s"), q=S("q"), q3=S("q3"), r3=S("r3"), psi=S("psi"))}
# frame used by the low-level lens functions
MID = {1: {}, 2: dict(a=S("a"), e1=S("e1")), 3: dict(a=S("a"), e1=S("e1"), e2=S("e2"), r3=S("r3"), psi=S("psi"))}


def data(x):
    return I.tree_map(lambda v: I.mark_traced(v) if isinstance(v, Arr) else v, x)


class Entry:
    def __init__(self, label, ref, args, kw, out=None, jit=True, static=()):
        self.label, self.ref, self.args, self.kw, self.out, self.jit, self.static = label, P + ref, args, kw, out, jit, static

    def __call__(self, ctx, traced=True):
        it = ctx.it
        f = it.get(self.ref)
        args = [data(a) for a in self.args] if traced else list(self.args)
        kw = {k: data(v) if k not in self.static else v for k, v in self.kw.items()} if traced else dict(self.kw)
        return it.traced(lambda: it.call(f, args, kw)) if traced else it.call(f, args, kw)


class Method(Entry):
    """construct an object and call one of its methods"""

    def __init__(self, label, ref, init, method, args, out=None, kw=None, jit=True):
        super().__init__(label, ref, args, kw or {}, out, jit)
        self.init, self.method = init, method

    def __call__(self, ctx, traced=True):
        it = ctx.it
        o = it.call(it.get(self.ref), list(self.init[0]), dict(self.init[1]))
        g, _ = o.cls.lookup(self.method)
        if g is None:
            raise M.Unsupported("method %s not found" % self.method)
        args = [data(a) for a in self.args] if traced else list(self.args)
        return it.traced(lambda: it.call(I.Bound(g, o), args, dict(self.kw))) if traced else it.call(I.Bound(g, o), args, dict(self.kw))


def entries(big=False):
    n = 7 if not big else 40
    w, w0, rho = V("w", 3, real=False), S("w", real=False), S("rho")
    E = []
    add = lambda *a, **k: E.append(Entry(*a, **k))
    for nl in (1, 2, 3):
        L, m = LENS[nl], MID[nl]
        ni = {1: 2, 2: 5, 3: 10}[nl]
        t = "%d lens%s" % (nl, "" if nl == 1 else "es")
        add("mag_point_source, " + t, "point_source:mag_point_source", [w], dict(nlenses=nl, **L), ((3,), F_))
        add("mag_point_source of a grid, " + t, "point_source:mag_point_source", [V("w", 2, 3, real=False)], dict(nlenses=nl, **L), ((2, 3), F_))
        add("lens_eq, " + t, "point_source:lens_eq", [w], dict(nlenses=nl, **m), ((3,), C_))
        add("lens_eq_det_jac, " + t, "point_source:lens_eq_det_jac", [w], dict(nlenses=nl, **m), ((3,), F_))
        add("critical curves, " + t, "point_source:critical_and_caustic_curves", [], dict(nlenses=nl, npts=n, **L), None)
        add("critical curves with default sampling, " + t, "point_source:critical_and_caustic_curves", [], dict(nlenses=nl, **L), None)
        add("mag_hexadecapole, " + t, "multipole:mag_hexadecapole", [V("z", ni, 3, real=False), BV("m", ni, 3), rho], dict(u1=S("u1"), nlenses=nl, **m), None)
        ld = dict(r_resolution=n, th_resolution=n + 1, Nlimb=n + 2, bins_r=5, bins_th=6, margin_r=0.5, margin_th=0.4)
        if nl > 1:
            add("mag_uniform, " + t, "inverse_ray.extended_source:mag_uniform", [w0, rho], dict(nlenses=nl, **ld, **L), ((), F_))
            add("mag_limb_dark, " + t, "inverse_ray.extended_source:mag_limb_dark", [w0, rho], dict(nlenses=nl, u1=S("u1"), delta_c=0.01, **ld, **L), ((), F_))
            add("test_full, " + t, "inverse_ray.cond_extended:test_full", [w, rho], dict(nlenses=nl, **m, **{k: v for k, v in L.items() if k not in m}), ((3,), B_))
            add("calc_source_limb, " + t, "inverse_ray.merge_area:calc_source_limb", [w0, rho], dict(Nlimb=n, nlenses=nl, **L), None)
            add("define_regions, " + t, "inverse_ray.merge_area:define_regions", [V("z", ni, n, real=False), BV("m", ni, n), rho],
                dict(bins_r=5, bins_th=6, margin_r=S("mr"), margin_th=S("mt"), nlenses=nl), None)
            add("distance_from_source, " + t, "inverse_ray.boundary:distance_from_source", [S("r"), V("th", n), w0, S("sh")], dict(nlenses=nl, **m), ((n,), F_))
            add("distance_from_source_adaptive, " + t, "inverse_ray.boundary:distance_from_source_adaptive", [S("r"), V("th", n), S("t0"), S("t1"), w0, S("sh")], dict(nlenses=nl, **m), ((n,), F_))
        add("limb sampling with explicit counts, " + t, "caustics.extended_source.limb:_images_of_source_limb", [w0, rho], dict(nlenses=nl, npts=20, niter=3, **m), None)
        for ldk in (False, True):
            k = dict(nlenses=nl, npts_limb=20, limb_darkening=ldk, u1=S("u1"), npts_ld=n)
            add("mag_extended_source, %s, limb darkening %s" % (t, ldk), "caustics.extended_source:mag_extended_source", [w0, rho], dict(**k, **L), ((), F_))
            if True:
                add("magnifications, %s, limb darkening %s" % (t, ldk), "caustics.lightcurve:magnifications", [w, rho], dict(**k, **L), ((3,), F_))
    lc = dict(r_resolution=n, th_resolution=n, u1=0.1, delta_c=0.01, Nlimb=n, bins_r=5, bins_th=6, margin_r=0.5, margin_th=0.4)
    for name, nl in (("mag_binary", 2), ("mag_triple", 3)):
        for calls, chunk in ((1, 1), (2, 2), (4, 2), (3, 5)):
            for npt in (1, 3):
                add("%s of %d points, budget %d, chunks of %d" % (name, npt, calls, chunk), "inverse_ray.lightcurve:" + name, [V("w", npt, real=False), rho],
                    dict(MAX_FULL_CALLS=calls, chunk_size=chunk, **lc, **LENS[nl]), ((npt,), F_))
        add("%s of a uniform source" % name, "inverse_ray.lightcurve:" + name, [w, rho], dict(MAX_FULL_CALLS=2, chunk_size=2, **dict(lc, u1=0.0), **LENS[nl]), ((3,), F_))
    for sh in ((4,), (2, 4), (2, 3, 6)):
        o = (sh[:-1] + (sh[-1] - 1,), C_)
        for real in (True, False):
            add("poly_roots of %s %s coefficients" % ("x".join(map(str, sh)), "real" if real else "complex"), "poly_solver:poly_roots", [V("c", *sh, real=real)], {}, o)
        add("poly_roots of %s coefficients with starting values" % "x".join(map(str, sh)), "poly_solver:poly_roots", [V("c", *sh, real=False)], dict(custom_init=True, roots_init=V("z", *o[0], real=False)), o)
        add("poly_roots of %s coefficients, options explicit" % "x".join(map(str, sh)), "poly_solver:poly_roots", [V("c", *sh, real=False)], dict(custom_init=False, roots_init=None), o)
    add("poly_roots_EA", "poly_solver:poly_roots_EA", [V("c", 5, real=False)], {}, ((4,), C_))
    add("poly_roots_EA_multi", "poly_solver:poly_roots_EA_multi", [V("c", 2, 5, real=False)], {}, ((2, 4), C_))
    add("poly_roots_EA_multi with starting values", "poly_solver:poly_roots_EA_multi", [V("c", 2, 5, real=False), True, V("z", 2, 4, real=False)], {}, ((2, 4), C_), static=())
    x, y = V("x", n), V("y", n)
    add("linear_chi2", "likelihood:linear_chi2", [x, y], {}, (((), F_),) * 5)
    add("linear_chi2 with errors", "likelihood:linear_chi2", [x, y, V("e", n)], {}, (((), F_),) * 5)
    add("linear_chi2 of integer epochs", "likelihood:linear_chi2", [whole_numbers(n), y, V("e", n)], {}, (((), F_),) * 5)
    add("linear_chi2 of counts", "likelihood:linear_chi2", [whole_numbers(n), whole_numbers(n), S("e")], {}, (((), F_),) * 5)
    add("linear_chi2 with one error", "likelihood:linear_chi2", [x, y, S("e")], {}, (((), F_),) * 5)
    add("nll_ulens", "likelihood:nll_ulens", [x, V("M", n, 2), V("s2", n), S("a"), S("b")], {}, ((), F_))
    add("nll_ulens_general", "likelihood:nll_ulens_general", [x, V("M", n, 2), V("C", n, n), V("mu", 2), V("L", 2, 2)], {}, ((), F_))
    pp = (V("p", 2), V("v", 2), V("R", 3, 3), V("nn", 3), V("ee", 3), S("tr"), S("tp"), S("per"), S("ec"))
    tr = "trajectory.parallax:"
    add("peri_vernal", tr + "peri_vernal", [S("t")], {}, (((), F_),) * 2)
    add("getpsi", tr + "getpsi", [x, S("ecc")], {}, ((n,), F_))
    add("prepare_projection_basis", tr + "prepare_projection_basis", [S("r"), S("p"), S("ra"), S("de")], {}, (((3, 3), F_), ((3,), F_), ((3,), F_)))
    add("set_parallax", tr + "set_parallax", [S("t"), S("tp"), S("tv"), S("ra"), S("de")], {}, None)
    add("set_parallax, constants explicit", tr + "set_parallax", [S("t"), S("tp"), S("tv"), S("ra"), S("de")], dict(rotaxis_deg=S("ro"), ecc=S("ec"), period=S("pe"), dt=S("dt")), None)
    for r in (False, True):
        E.append(Chain("set_parallax and compute_parallax, %s" % ("one epoch" if r else "many epochs"), S("t") if r else x, (1,) if r else (n,)))
    u = "utils:"
    add("match_points", u + "match_points", [V("a", 4, real=False), V("b", 4, real=False)], {}, ((4,), I_))
    for f in ("first_nonzero", "last_nonzero", "first_zero"):
        add(f, u + f, [x], {}, ((), I_))
    for f in ("min_zero_avoiding", "max_zero_avoiding", "mean_zero_avoiding"):
        add(f, u + f, [x], {}, ((), F_))
    add("sparse_argsort", u + "sparse_argsort", [x], {}, ((n,), I_))
    add("trapz_zero_avoiding", u + "trapz_zero_avoiding", [x, y, idx()], {}, ((), F_))
    b = "inverse_ray.boundary:"
    add("calc_facB", b + "calc_facB", [x, S("dc")], {}, ((n,), F_))
    add("step_smooth", b + "step_smooth", [x], {}, ((n,), F_))
    add("step_smooth, steepness explicit", b + "step_smooth", [x, S("fac")], {}, ((n,), F_))
    add("in_source", b + "in_source", [x, rho], {}, ((n,), F_))
    add("Is_limb_1st", "inverse_ray.limb_darkening:Is_limb_1st", [x, S("u1")], {}, ((n,), F_))
    add("Is_limb_1st of a uniform source", "inverse_ray.limb_darkening:Is_limb_1st", [x], {}, ((n,), F_))
    add("cluster_1d of radii", "inverse_ray.merge_area:cluster_1d", [x], dict(bins=5, max_cluster=3, mode_r=True), None)
    add("cluster_1d of angles", "inverse_ray.merge_area:cluster_1d", [x], dict(bins=5, max_cluster=3, mode_r=False), None)
    add("cubic_interp", "inverse_ray.extended_source:cubic_interp", [S("x")] + [S("x%d" % i) for i in range(4)] + [S("y%d" % i) for i in range(4)], {}, ((), F_))
    sp = "fastlens.special:"
    for f in ("j0", "j1", "j2", "j1p5"):
        add(f, sp + f, [x], {}, ((n,), F_))
    for f in ("ellipk", "ellipe"):
        add(f, sp + f, [S("x")], {}, ((), F_))
    add("gamma", sp + "gamma", [V("z", n, real=False)], {}, ((n,), C_))
    add("gamma of reals", sp + "gamma", [x], {}, None)
    add("digamma", sp + "digamma_", [V("z", n, real=False)], {}, ((n,), C_))
    fj = "fastlens.fftlog_jax:"
    for lo, hi in ((0, 0), (2, 0), (0, 3), (2, 3)):
        add("log_extrap (%d, %d)" % (lo, hi), fj + "log_extrap", [V("x", 8), lo, hi], {}, ((8 + lo + hi,), F_))
    add("c_window", fj + "c_window", [V("k", 9), 3], {}, ((9,), F_))
    add("g_m_vals", fj + "g_m_vals", [S("mu"), V("q", 6, real=False)], {}, ((6,), C_))
    add("g_m_ratio", fj + "g_m_ratio", [V("a", 6, real=False)], {}, ((6,), C_))
    for f in ("g_l", "g_l_1", "g_l_2", "h_l"):
        add(f, fj + f, [1, V("z", 6, real=False)], {}, ((6,), C_))
    for pad in (0, 4):
        for name in ("fftlog", "fftlog_dj", "fftlog_ddj", "fftlog_jsqr"):
            E.append(Method("fftlog.%s, padding %d" % (name, pad), fj + "fftlog", ([V("x", 8), V("f", 8)], dict(nu=1.1, N_extrap_low=2, N_extrap_high=2, c_window_width=0.25, N_pad=pad)), name, [1], None))
    E.append(Method("hankel.hankel", fj + "hankel", ([V("x", 8), V("f", 8)], dict(nu=1.5, N_pad=4)), "hankel", [0], None))
    mj = "fastlens.mag_fft_jax:"
    opt = dict(fft_logumin=-6, fft_logumax=3, N_fft=16)
    for c in ("mag_disk", "mag_limb"):
        E.append(Method("%s.A" % c, mj + c, ([], opt), "A", [x, rho, S("a1")], ((n,), F_)))
        E.append(Method("%s.A of one point" % c, mj + c, ([], opt), "A", [S("u"), rho], ((1,), F_)))
    for c in ("magnification_disk", "magnification_limb1", "magnification_limb2", "mag_limb1"):
        E.append(Method("%s.A" % c, mj + c, ([], opt), "A", [x, rho], ((n,), F_)))
        E.append(Method("%s.A of one point" % c, mj + c, ([], opt), "A", [S("u"), rho], ((1,), F_)))
    return E


def whole_numbers(n):
    return Arr(np.array([T.sym("?wk%d" % k) for k in range(n)], dtype=object), "i")


def idx():
    return Arr(T.sym("idx"), "i")


class Chain(Entry):
    def __init__(self, label, t, shape):
        super().__init__(label, "trajectory.parallax:compute_parallax", [t], {}, ((shape, F_),) * 2)

    def __call__(self, ctx, traced=True):
        it = ctx.it
        d = data if traced else (lambda v: v)
        a = [d(S(k)) for k in ("tref", "tp", "tv", "ra", "de")]

        def go():
            p = it.call(it.get(P + "trajectory.parallax:set_parallax"), a, {})
            return it.call(it.get(self.ref), [d(self.args[0]), d(S("pn")), d(S("pe")), p], {})
        return it.traced(go)


_jobs = []


def _work(args):
    k, prop, tier, limit = args
    e = _jobs[k]
    t = time.time()
    ctx = CH.Ctx(prop, tier)
    ctx.t0 = t - max(0, (20000 if tier == "thorough" else 780) - limit)
    ctx.collect = []
    with ctx.case(e.label, e.ref):
        with shape.mode(ctx.it):
            r = e(ctx, e.jit)
        if isinstance(e, Refused):
            ctx.fact(e.label, r)
        else:
            d = I.tree_map(lambda v: (A(v).shape, A(v).dt) if v is not None else None, r)
            if e.out is not None and d != e.out:
                raise CH.Mismatch("shapes and kinds of the results are %s, documented %s" % (types(d), types(e.out)), "", None, e.ref)
            ctx.n += max(1, len(I.tree_leaves(r)))
    sites = {k2: v for k2, v in ctx.it.jitsites.items()}
    return dict(k=k, case=ctx.cases[-1], undecided=ctx.undecided, violations=ctx.violations, visited=dict(ctx.it.visited), calls=ctx.it.calls,
                steps=ctx.it.steps, events=list(ctx.collect), sites=sites)


def types(d):
    names = dict(f="float", c="complex", b="bool", i="int")
    if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], str):
        return "%s%s" % (names.get(d[1], d[1]), list(d[0]))
    if isinstance(d, (tuple, list)):
        return "(%s)" % ", ".join(types(x) for x in d)
    return str(d)


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def walk(ctx, jobs, limit=700):
    """interpret every entry, each in a process of its own; yields the outcomes"""
    _jobs[:] = jobs
    tier = ctx.tier
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1), _limit, maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(_work, [(k, ctx.prop, tier, limit) for k in range(len(jobs))], chunksize=1):
            it = ctx.it
            it.calls += r["calls"]
            it.steps += r["steps"]
            for f, n in r["visited"].items():
                it.visited[f] = it.visited.get(f, 0) + n
            yield r


class Refused(Entry):
    """a lens count outside the model is refused while tracing"""

    def __call__(self, ctx, traced=True):
        try:
            super().__call__(ctx, traced)
        except M.PyRaise as e:
            if e.kind == "ValueError" and not isinstance(e, M.TraceError):
                return True
            raise
        raise CH.Mismatch("the lens count is accepted", "", None, self.ref)


def refused():
    w, w0, rho = V("w", 3, real=False), S("w", real=False), S("rho")
    R = []
    every = {k: v for d in list(LENS.values()) + list(MID.values()) for k, v in d.items()}
    L3, M3 = LENS[3], MID[3]
    add = lambda ref, args, nl, **kw: R.append(Refused("%s refuses %d lenses" % (ref.split(":")[1], nl), ref, args, dict(nlenses=nl, **kw)))
    for nl in (4, 0):
        add("point_source:lens_eq", [w], nl, **M3)
        add("point_source:lens_eq_det_jac", [w], nl, **M3)
        add("point_source:mag_point_source", [w], nl, **L3)
        add("point_source:critical_and_caustic_curves", [], nl, npts=5, **L3)
        add("multipole:mag_hexadecapole", [V("z", 10, 3, real=False), BV("m", 10, 3), rho], nl, **M3)
        add("caustics.lightcurve:magnifications", [w, rho], nl, npts_limb=20, **L3)
        add("caustics.extended_source:mag_extended_source", [w0, rho], nl, npts_limb=20, **L3)
    for nl in (1, 4):
        ld = dict(r_resolution=5, th_resolution=5, Nlimb=5, bins_r=5, bins_th=6)
        add("inverse_ray.extended_source:mag_uniform", [w0, rho], nl, **ld, **L3)
        add("inverse_ray.extended_source:mag_limb_dark", [w0, rho], nl, **ld, **L3)
        add("inverse_ray.merge_area:calc_source_limb", [w0, rho], nl, Nlimb=5, **L3)
        add("inverse_ray.merge_area:define_regions", [V("z", 10, 5, real=False), BV("m", 10, 5), rho], nl, bins_r=5, bins_th=6, margin_r=S("mr"), margin_th=S("mt"))
    return R
