"""Meaning of the library names (NumPy, JAX, SciPy, Python builtins) used by the
analysed sources, as transfer functions on value graphs."""
from fractions import Fraction
import numpy as np

from . import terms as T
from . import model as M
from .model import Arr, Unsupported, PyRaise, TraceError, A
from . import interp as I

ALIASES = {"jax.numpy": "jnp", "numpy": "np", "jax.lax": "lax", "jax.scipy.special": "jsp", "scipy.special": "sp",
           "jax.numpy.linalg": "jnp.linalg", "numpy.linalg": "np.linalg", "jax.numpy.fft": "jnp.fft", "numpy.fft": "np.fft"}


def conv_name(n):
    for k in ("jax.numpy", "numpy", "jax.lax"):
        if n == k or n.startswith(k + "."):
            return ALIASES[k] + n[len(k):]
    return n


CONSTS = {"pi": lambda: Arr(T.PI, "f", True, False), "inf": lambda: Arr(T.INF, "f", True, False),
          "nan": lambda: Arr(T.NAN, "f", True, False), "newaxis": lambda: None,
          "e": lambda: Arr(T.fn("exp", (T.ONE,)), "f", True, False),
          "euler_gamma": lambda: Arr(T.sym("euler_gamma", True, True), "f", True, False)}


def e(name, dt=None, real=None):
    return M.elementwise(name, dt, real)


def _sgn(x):
    return M.um(M.sign_node, x)


def _floor(x):
    return M.um(M.floor_node, x)


def _ceil(x):
    return M.um(lambda n: T.neg(M.floor_node(T.neg(n))), x)


def _log(x):
    return M.um(M.log_node, x, atleast="f")


def _log10(x):
    return M.um(lambda n: T.div(M.log_node(n), M.log_node(T.num(10))), x, atleast="f")


def _log2(x):
    return M.um(lambda n: T.div(M.log_node(n), M.log_node(T.num(2))), x, atleast="f")


def _log1p(x):
    return _log(M.binop("+", 1, A(x)))


def _deg2rad(x):
    return M.um(lambda n: T.mul(n, T.PI, T.num(Fraction(1, 180))), x, atleast="f")


def _rad2deg(x):
    return M.um(lambda n: T.mul(n, T.num(180), T.power(T.PI, -1)), x, atleast="f")


def _exp(x):
    return M.um(lambda n: M.exp_node(n), x, atleast="f")


def _expm1(x):
    return M.binop("-", _exp(x), 1)


def _square(x):
    x = A(x)
    return M.binop("*", x, x)


def _recip(x):
    return M.binop("/", 1, A(x))


def _hypot(x, y):
    return M.sqrt(M.binop("+", _square(x), _square(y)))


def _angle(x, deg=False):
    x = A(x)
    r = _arctan2(M.imag(x), M.real(x))
    return _rad2deg(r) if deg is True else r


def _arctan2(y, x):
    y, x = A(y), A(x)
    return M.like(M.emap(lambda a, b: T.fn("arctan2", (T.tonum(a), T.tonum(b)), real=True), y.a, x.a), y, x, dt="f")


def _cos(x):
    return M.um(lambda n: trig("cos", n), x, atleast="f")


def _sin(x):
    return M.um(lambda n: trig("sin", n), x, atleast="f")


def trig(name, n):
    n = T.tonum(n)
    if n is T.ZERO:
        return T.ONE if name == "cos" else T.ZERO
    return T.fn(name, (n,))


def _isnan(x):
    return M.um(lambda n: T.TRUE if n is T.NAN else (T.FALSE if T.is_const(n) or n in (T.PI, T.INF) else T.fn("isnan", (n,))), x, "b")


def _isfinite(x):
    return M.um(lambda n: T.FALSE if n in (T.NAN, T.INF) else (T.TRUE if T.is_const(n) or n is T.PI else T.fn("isfinite", (n,))), x, "b")


def _logic(op):
    def f(x, y):
        b = lambda v: M.cast(A(v), "bool") if A(v).dt != "b" else A(v)
        return M.binop(op, b(x), b(y))
    return f


def _lnot(x):
    x = A(x)
    return M.invert(M.cast(x, "bool") if x.dt != "b" else x)


def _nan_to_num(x, **kw):
    return A(x)


def _prod2(op):
    return lambda x, y: M.binop(op, A(x), A(y))


def _cmp(op):
    return lambda x, y: M.compare(op, A(x), A(y))


def _select(conds, choices, default=0):
    r = A(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = M.where(c, v, r)
    return r


def _take(x, idx, axis=None, **kw):
    x = A(x)
    if axis is None:
        return M.getitem(M.reshape(x, -1), idx if not isinstance(idx, (list, tuple)) else M.array(idx))
    ix = [slice(None)] * x.ndim
    ix[axis % x.ndim] = idx if not isinstance(idx, (list, tuple)) else M.array(idx)
    return M.getitem(x, tuple(ix))


def _take_along_axis(x, idx, axis=None, **kw):
    x, idx = A(x), A(idx)
    ax = (axis if axis is not None else 0) % x.ndim
    m = np.moveaxis(x.a, ax, -1)
    k = np.moveaxis(idx.a, ax, -1)
    sh = np.broadcast_shapes(m.shape[:-1], k.shape[:-1])
    m = np.broadcast_to(m, sh + m.shape[-1:])
    k = np.broadcast_to(k, sh + k.shape[-1:])
    out = np.empty(sh + (k.shape[-1],), dtype=object)
    for i in np.ndindex(*sh):
        l = list(m[i])
        for j in range(k.shape[-1]):
            out[i + (j,)] = M.take_node(l, k[i + (j,)])
    return M.like(np.moveaxis(out, -1, ax), x, idx, dt=x.dt)


def _einsum(spec, *ops, **kw):
    spec = spec.replace(" ", "")
    lhs, _, rhs = spec.partition("->")
    ins = lhs.split(",")
    ops = [A(o) for o in ops]
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" not in spec:
        al = "".join(ins)
        rhs = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyRaise("ValueError", "einsum operand rank")
        for c, n in zip(s, o.shape):
            dim[c] = max(dim.get(c, 1), n)
    summed = [c for c in dim if c not in rhs]
    out = np.empty(tuple(dim[c] for c in rhs), dtype=object)
    for i in np.ndindex(*out.shape):
        b = dict(zip(rhs, i))
        ts = []
        for j in np.ndindex(*[dim[c] for c in summed]):
            b.update(zip(summed, j))
            ts.append(T.mul(*[T.tonum(o.a[tuple(b[c] for c in s)]) for s, o in zip(ins, ops)]))
        out[i] = T.add(*ts) if ts else T.ZERO
    return M.like(out, *ops, dt=M.kindmax(*[o.dt for o in ops]))


def _apply_axes(f):
    return f


def _meanvar(x, axis=None, **kw):
    x = A(x)
    mu = M.amean(x, axis=axis, keepdims=True)
    d = M.binop("-", x, mu)
    return M.amean(M.binop("*", d, d), axis=axis)


def _count_nonzero(x, axis=None, **kw):
    return M.asum(M.cast(M.compare("!=", A(x), 0), "int"), axis=axis)


def _polyder(p, m=1, **kw):
    p = A(p)
    if m != 1:
        raise Unsupported("polyder order")
    n = p.shape[0] - 1
    if n == 0:
        return M.full_kind((0,), "f", 0)
    return M.like(np.array([T.mul(T.num(n - i), p.a[i]) for i in range(n)], dtype=object), p, dt=M.kindmax(p.dt, "i"))


def _polymul(p, q, **kw):
    p, q = A(p), A(q)
    n, m = p.shape[0], q.shape[0]
    out = np.empty((n + m - 1,), dtype=object)
    for k in range(n + m - 1):
        out[k] = T.add(*[T.mul(p.a[i], q.a[k - i]) for i in range(n) if 0 <= k - i < m])
    return M.like(out, p, q, dt=M.kindmax(p.dt, q.dt))


def _convolve(p, q, mode="full", **kw):
    if mode != "full":
        raise Unsupported("convolve mode")
    return _polymul(p, q)


def _unravel_index(i, shape):
    i = A(i)
    out = []
    shape = M.shape_of(shape)
    rem = i
    st = [int(np.prod(shape[k + 1:])) for k in range(len(shape))]
    total = int(np.prod(shape))

    def comp(n, s, d):
        v = T.cval(n)
        if v is not None:
            return T.num((int(v) // s) % d)
        if n.op == "ite" and M.leaves_const(n):
            return M.lift(lambda t: T.num((int(T.cval(t)) // s) % d), n)
        return T.fn("unravel", (n,), data=(s, d), real=True)
    for s, d in zip(st, shape):
        out.append(M.like(M.emap(lambda n: comp(n, s, d), i.a), i, dt="i"))
    return tuple(out)


def _result_type(*xs):
    k = "b"
    for x in xs:
        if isinstance(x, Arr):
            k = M.kindmax(k, x.dt)
        elif isinstance(x, (bool, int)):
            k = M.kindmax(k, "i" if not isinstance(x, bool) else "b")
        else:
            k = M.kindmax(k, M.to_dt(x).kind)
    return {"b": M.DTYPES["bool"], "i": M.DTYPES["int64"], "f": M.DTYPES["float64"], "c": M.DTYPES["complex128"]}[k]


def _finfo(d):
    o = I.Opaque("finfo")
    return o


def _iscomplexobj(x):
    return A(x).dt == "c"


def _bc(*xs):
    xs = [A(x) for x in xs]
    s = np.broadcast_shapes(*[x.shape for x in xs])
    return [M.broadcast_to(x, s) for x in xs]


def _shape(x):
    return A(x).shape


def _split(x, n, axis=0):
    x = A(x)
    ax = axis % x.ndim
    N = x.shape[ax]
    if isinstance(n, int):
        if N % n:
            raise PyRaise("ValueError", "split does not divide")
        cuts = [N // n * k for k in range(1, n)]
    else:
        cuts = [M.concrete_int(v) for v in (n if isinstance(n, (list, tuple)) else list(n))]
    out = []
    lo = 0
    for c in cuts + [N]:
        ix = [slice(None)] * x.ndim
        ix[ax] = slice(lo, c)
        out.append(M.getitem(x, tuple(ix)))
        lo = c
    return out


def _vander_unsupported(*a, **k):
    raise Unsupported("library function")


def _ptp(x, axis=None):
    return M.binop("-", M.amax(x, axis=axis), M.amin(x, axis=axis))


def _identity(x, *a, **k):
    return x


def _triu(x, k=0):
    x = A(x)
    out = x.a.copy()
    for i in np.ndindex(*x.shape):
        if i[-1] - i[-2] < k:
            out[i] = T.ZERO
    return M.like(out, x)


def _tril(x, k=0):
    x = A(x)
    out = x.a.copy()
    for i in np.ndindex(*x.shape):
        if i[-1] - i[-2] > k:
            out[i] = T.ZERO
    return M.like(out, x)


def _round(x, decimals=0):
    x = A(x)
    if x.dt in "bi":
        return x
    return M.um(lambda n: T.num(round(T.cval(n))) if T.cval(n) is not None and decimals == 0 else T.fn("round", (n,), data=decimals, real=True), x)


def _isrealobj(x):
    return A(x).dt != "c"


def _apply_along(f, x):
    raise Unsupported("apply_along_axis")


def _fabs(x):
    return M.aabs(x)


def _trunc(x):
    return M.um(M.trunc_node, x)


FUNCS = dict(
    where=M.where, abs=M.aabs, absolute=M.aabs, fabs=M.aabs, conjugate=M.conj, conj=M.conj, real=M.real, imag=M.imag,
    sqrt=M.sqrt, exp=_exp, expm1=_expm1, log=_log, log10=_log10, log2=_log2, log1p=_log1p, sin=_sin, cos=_cos,
    tan=e("tan"), arcsin=e("arcsin"), arccos=e("arccos"), arctan=e("arctan"), asin=e("arcsin"), acos=e("arccos"), atan=e("arctan"),
    sinh=e("sinh"), cosh=e("cosh"), tanh=e("tanh"), arcsinh=e("arcsinh"), arccosh=e("arccosh"), arctanh=e("arctanh"),
    sinc=e("sinc"), arctan2=_arctan2, atan2=_arctan2, angle=_angle, hypot=_hypot, square=_square, reciprocal=_recip,
    sign=_sgn, floor=_floor, ceil=_ceil, trunc=_trunc, round=_round, around=_round, deg2rad=_deg2rad, radians=_deg2rad,
    rad2deg=_rad2deg, degrees=_rad2deg, isnan=_isnan, isfinite=_isfinite,
    stack=M.stack, concatenate=M.concatenate, concat=M.concatenate, hstack=M.hstack, vstack=M.vstack, column_stack=M.column_stack,
    sum=M.asum, nansum=M.nan_reduce("sum"), prod=M.aprod, mean=M.amean, nanmean=M.nan_reduce("mean"), any=M.aany, all=M.aall,
    max=M.amax, min=M.amin, amax=M.amax, amin=M.amin, nanmax=M.nan_reduce("max"), nanmin=M.nan_reduce("min"),
    argmax=M.argmax, argmin=M.argmin, argsort=M.argsort, sort=M.sort, cumsum=M.cumsum, cumprod=M.cumprod, diff=M.diff,
    trapezoid=M.trapezoid, trapz=M.trapezoid, flip=M.flip, moveaxis=M.moveaxis, transpose=M.transpose, swapaxes=M.swapaxes,
    expand_dims=M.expand_dims, squeeze=M.squeeze, reshape=M.reshape, ravel=M.ravel, broadcast_to=M.broadcast_to,
    broadcast_arrays=_bc, atleast_1d=M.atleast_1d, atleast_2d=M.atleast_2d, repeat=M.repeat, tile=M.tile, roll=M.roll, pad=M.pad,
    polyval=M.polyval, polyder=_polyder, polymul=_polymul, convolve=_convolve, dot=M.dot, matmul=M.matmul, vdot=M.vdot,
    inner=M.dot, outer=M.outer, cross=M.cross, trace=M.trace, diag=M.diag, isclose=M.isclose, interp=M.interp,
    digitize=M.digitize, searchsorted=M.searchsorted, bincount=M.bincount, argwhere=M.argwhere, nonzero=M.nonzero, isin=M.isin,
    unique=M.unique, insert=M.insert, append=M.append, maximum=M.maximum, minimum=M.minimum, clip=M.clip, fmax=M.maximum, fmin=M.minimum,
    logical_or=_logic("|"), logical_and=_logic("&"), logical_xor=_logic("^"), logical_not=_lnot, invert=M.invert,
    bitwise_and=_prod2("&"), bitwise_or=_prod2("|"), bitwise_not=M.invert,
    add=_prod2("+"), subtract=_prod2("-"), multiply=_prod2("*"), divide=_prod2("/"), true_divide=_prod2("/"), power=_prod2("**"),
    float_power=_prod2("**"), mod=_prod2("%"), remainder=_prod2("%"), floor_divide=_prod2("//"), negative=M.neg, positive=lambda x: A(x),
    equal=_cmp("=="), not_equal=_cmp("!="), less=_cmp("<"), less_equal=_cmp("<="), greater=_cmp(">"), greater_equal=_cmp(">="),
    select=_select, take=_take, take_along_axis=_take_along_axis, einsum=_einsum, var=_meanvar, count_nonzero=_count_nonzero,
    unravel_index=_unravel_index, nan_to_num=_nan_to_num, meshgrid=M.meshgrid, split=_split, array_split=_split, ptp=_ptp,
    triu=_triu, tril=_tril, copy=lambda x: M.array(x),
)
LIST_OUT = {"broadcast_arrays", "split", "array_split", "unravel_index", "meshgrid", "nonzero"}
CREATE = dict(zeros=M.zeros, ones=M.ones, full=M.full, empty=M.zeros, zeros_like=M.zeros_like, ones_like=M.ones_like,
              empty_like=M.zeros_like, full_like=M.full_like, eye=M.eye, identity=M.eye, arange=M.arange, linspace=M.linspace,
              logspace=M.logspace, geomspace=None, array=None, asarray=None)
LINALG = dict(norm=M.norm, det=M.det, inv=M.inv, solve=M.solve, slogdet=M.slogdet, cholesky=M.cholesky)
FFT = dict(rfft=M.rfft, irfft=M.irfft)
NOARR = dict(result_type=_result_type, promote_types=_result_type, finfo=_finfo, iscomplexobj=_iscomplexobj, isrealobj=_isrealobj,
             shape=_shape, ndim=lambda x: A(x).ndim, size=lambda x: A(x).size, broadcast_shapes=lambda *s: tuple(np.broadcast_shapes(*s)),
             isscalar=lambda x: isinstance(x, (int, Fraction)) or isinstance(x, Arr) and x.ndim == 0 and x.weak)


def gamma_fn(x):
    return M.um(M.gamma_node, x, atleast="f")


def gammaln_fn(x):
    return M.um(M.gammaln_node, x, atleast="f")


def jn(n, x):
    n = A(n)
    v = T.cval(n.item()) if n.size == 1 else None
    if v is None:
        raise Unsupported("jn order")
    return M.um(lambda t: T.fn("bessel_j", (t,), data=str(v), real=True), x, atleast="f")


SPECIAL = dict(gamma=gamma_fn, gammaln=gammaln_fn, j0=lambda x: jn(0, x), j1=lambda x: jn(1, x), jn=jn, jv=jn,
               ellipk=e("ellipk", real=True), ellipe=e("ellipe", real=True), digamma=e("digamma"), erf=e("erf"))


def sigmoid(x):
    return M.binop("/", 1, M.binop("+", 1, _exp(M.neg(A(x)))))


class Lib:
    def __init__(self, it):
        self.it = it
        self.alloc = 0

    # ------------------------------------------------------------ names
    def ext(self, name):
        c = conv_name(name)
        last = c.split(".")[-1]
        if c.startswith(("np.", "jnp.")) and c.count(".") == 1 and last in CONSTS:
            return CONSTS[last]()
        if name in ("math.pi", "math.inf", "math.nan", "math.e"):
            return CONSTS[last]()
        if name in ("typing.TYPE_CHECKING",):
            return False
        if name == "jax.__version__":
            return "0"
        return I.Ext(name)

    def finish(self, r, host, args=()):
        """library result: trace status and ownership"""
        if isinstance(r, Arr):
            if r.a.dtype != object:
                raise Unsupported("internal")
            r = Arr(r.a, r.dt, False, r.traced, r.isnp)
            if host:
                r.isnp = True
                r.traced = False
            else:
                r.isnp = False
                r.traced = r.traced or M.TRACING[0] > 0 or any(isinstance(a, Arr) and a.traced for a in args)
            return r
        if isinstance(r, tuple):
            return tuple(self.finish(x, host, args) for x in r)
        if isinstance(r, list):
            return [self.finish(x, host, args) for x in r]
        return r

    def call_ext(self, f, args, kw):
        name = f.name
        h = self.it.ext_intercepts.get(name)
        if h is not None:
            return h(args, kw)
        c = conv_name(name)
        parts = c.split(".")
        if parts[0] in ("np", "jnp"):
            return self.array_fn(parts, args, kw, name)
        if parts[0] == "lax":
            return self.lax(".".join(parts[1:]), args, kw)
        for pre, host in (("scipy.special.", True), ("jax.scipy.special.", False)):
            if name.startswith(pre):
                fn = SPECIAL.get(name[len(pre):])
                if fn is None:
                    raise Unsupported(name)
                self.host_check(host, args, name)
                return self.finish(fn(*args), host, args)
        if name.startswith("jax.scipy.linalg.") or name.startswith("scipy.linalg."):
            host = not name.startswith("jax")
            self.host_check(host, args, name)
            last = parts[-1]
            fn = {"solve": M.solve, "inv": M.inv, "det": M.det, "cholesky": M.cholesky, "solve_triangular": M.solve_triangular,
                  "cho_factor": M.cho_factor, "cho_solve": M.cho_solve}.get(last)
            if fn is None:
                raise Unsupported(name)
            return self.finish(fn(*args, **kw), host, args)
        if name in ("jax.scipy.integrate.trapezoid", "scipy.integrate.trapezoid"):
            return self.finish(M.trapezoid(*args, **kw), not name.startswith("jax"), args)
        fn = getattr(self, "x_" + name.replace(".", "_"), None)
        if fn is not None:
            return fn(args, kw)
        if name.startswith("math."):
            return self.math(parts[-1], args)
        if name.startswith("typing.") or name.startswith("collections.abc"):
            return I.Ext("typing.op")
        if name.startswith(("jax.config", "warnings.", "logging.", "matplotlib")):
            self.it.effects.append(("library", name, T.CUR_LOC[0]))
            return I.Opaque(name)
        if name.startswith(("time.", "datetime.", "os.", "random.", "secrets.", "uuid.", "socket.", "subprocess.", "pathlib.", "io.")):
            self.it.effects.append(("impure", name, T.CUR_LOC[0]))
            return Arr(T.sym("impure:%s" % name), "f", False)
        if f.dtname:
            return M.cast(A(args[0]), f)
        if name == "jax.named_scope":
            return I.Opaque(name)
        raise Unsupported("library call %s" % name)

    def host_check(self, host, args, name):
        if host:
            for a in args:
                for l in I.tree_leaves(a) if isinstance(a, (tuple, list)) else [a]:
                    if isinstance(l, Arr) and l.traced:
                        raise TraceError("TracerArrayConversionError", "NumPy/SciPy function %s applied to runtime data" % name)

    def array_fn(self, parts, args, kw, name):
        host = parts[0] == "np"
        sub = parts[1:]
        last = sub[-1]
        if len(sub) == 1:
            if last in M.DTYPES:
                self.host_check(host, args, name)
                d = M.DTYPES[last]
                return self.finish(M.cast(A(args[0]) if args else M.lit(0), d), host, args)
            if last in NOARR:
                return NOARR[last](*args, **kw)
            self.host_check(host, list(args) + list(kw.values()), name)
            if last in ("array", "asarray", "ascontiguousarray"):
                x = args[0]
                d = kw.get("dtype", args[1] if len(args) > 1 else None)
                if isinstance(x, range):
                    x = list(x)
                if host and last == "asarray" and isinstance(x, Arr) and x.isnp and d is None:
                    return x
                r = M.array(x, d, isnp=host)
                return self.finish(r, host, [l for l in I.tree_leaves(x)] if isinstance(x, (list, tuple)) else [x])
            if last in CREATE:
                fn = CREATE[last]
                if fn is None:
                    raise Unsupported(name)
                r = fn(*args, isnp=host, **kw)
                if last.startswith(("zeros", "ones", "full", "empty")) and not last.endswith("_like"):
                    pass
                return self.finish(r, host, ())
            if last == "vectorize":
                raise Unsupported("vectorize")
            if last in ("dtype",):
                return M.to_dt(args[0])
            fn = FUNCS.get(last)
            if fn is None:
                raise Unsupported("library function %s" % name)
            for k in ("dtype", "out", "where", "initial", "precision", "preferred_element_type"):
                if k in kw and last not in ("nan_to_num",):
                    if k == "dtype":
                        d = kw.pop("dtype")
                        r = self.finish(fn(*args, **kw), host, args)
                        return M.cast(r, d) if d is not None else r
                    if k == "where" and kw["where"] is None:
                        kw.pop("where")
                        continue
                    if k == "where" and last in ("max", "min", "amax", "amin") and "initial" in kw:
                        w, ini = kw.pop("where"), kw.pop("initial")
                        r = fn(M.where(w, args[0], ini), *args[1:], **kw)
                        r = (M.maximum if last in ("max", "amax") else M.minimum)(r, A(ini))
                        return self.finish(r, host, list(args) + [w])
                    if k == "where" and last in ("sum", "prod", "any", "all", "mean") and kw.get("initial") is None:
                        kw.pop("initial", None)
                        w = kw.pop("where")
                        neutral = {"sum": 0, "prod": 1, "any": False, "all": True, "mean": 0}[last]
                        x = M.where(w, args[0], neutral)
                        r = fn(x, *args[1:], **kw)
                        if last == "mean":
                            ax = kw.get("axis")
                            s = M.asum(x, axis=ax)
                            cn = M.asum(M.cast(M.broadcast_to(A(w), x.shape), "int"), axis=ax)
                            r = M.binop("/", s, cn)
                        return self.finish(r, host, list(args) + [w])
                    if k in ("precision", "preferred_element_type"):
                        kw.pop(k)
                        continue
                    if k == "initial" and last in ("max", "min", "sum"):
                        ini = kw.pop("initial")
                        r = fn(*args, **kw)
                        r = {"max": M.maximum, "min": M.minimum, "sum": lambda a, b: M.binop("+", a, A(b))}[last](r, ini)
                        return self.finish(r, host, args)
                    if kw[k] is None:
                        kw.pop(k)
                        continue
                    raise Unsupported("%s(%s=)" % (name, k))
            flat = []
            for a in list(args) + list(kw.values()):
                flat.extend(I.tree_leaves(a) if isinstance(a, (list, tuple)) else [a])
            return self.finish(fn(*args, **kw), host, flat)
        self.host_check(host, args, name)
        if sub[0] == "linalg" and last in LINALG:
            return self.finish(LINALG[last](*args, **kw), host, args)
        if sub[0] == "fft" and last in FFT:
            return self.finish(FFT[last](*args, **kw), host, args)
        if sub[-1] == "leggauss":
            return self.finish(M.leggauss(*args), host)
        if sub[0] == "random":
            self.it.effects.append(("impure", name, T.CUR_LOC[0]))
            return Arr(T.sym("impure:%s" % name), "f", False, False, True)
        raise Unsupported("library function %s" % name)

    def math(self, last, args):
        m = {"sqrt": M.sqrt, "exp": _exp, "log": _log, "sin": _sin, "cos": _cos, "tan": e("tan"), "radians": _deg2rad, "degrees": _rad2deg,
             "floor": _floor, "ceil": _ceil, "fabs": M.aabs, "atan2": _arctan2, "pow": _prod2("**"), "log10": _log10, "log2": _log2,
             "gamma": gamma_fn, "lgamma": gammaln_fn, "hypot": _hypot, "isfinite": _isfinite, "isnan": _isnan, "acos": e("arccos"),
             "asin": e("arcsin"), "atan": e("arctan")}.get(last)
        for a in args:
            if isinstance(a, Arr) and a.traced:
                raise TraceError("ConcretizationTypeError", "math.%s applied to runtime data" % last)
        if last == "prod":
            r = 1
            for v in self.it.iterate(args[0]):
                r = M.binop("*", r, v)
            return r
        if last in ("factorial", "comb", "perm", "gcd", "isqrt", "lcm"):
            vals = [T.cval(a.item()) if isinstance(a, Arr) else a for a in args]
            if all(v is not None and not isinstance(v, (bool, complex)) and v == int(v) for v in vals):
                import math
                return getattr(math, last)(*[int(v) for v in vals])
            raise Unsupported("math.%s of a value that is not a known integer" % last)
        if m is None:
            raise Unsupported("math." + last)
        r = m(*args)
        if last in ("floor", "ceil"):
            c = T.cval(r.item())
            if c is not None:
                return int(c)
        r.weak = True
        r.traced = False
        return r

    # ------------------------------------------------------------ functools etc.
    def x_functools_partial(self, args, kw):
        return I.Partial(args[0], args[1:], kw)

    x_jax_tree_util_Partial = x_functools_partial

    def x_functools_reduce(self, args, kw):
        f, seq = args[0], list(self.it.iterate(args[1]))
        acc = args[2] if len(args) > 2 else seq.pop(0)
        for v in seq:
            acc = self.it.call(f, [acc, v], {})
        return acc

    def x_functools_wraps(self, args, kw):
        return I.Builtin("wraps", lambda a, k: a[0])

    def x_functools_lru_cache(self, args, kw):
        if args and not isinstance(args[0], int) and args[0] is not None:
            return args[0]
        return I.Builtin("lru", lambda a, k: a[0])

    x_functools_cache = x_functools_lru_cache

    def x_dataclasses_dataclass(self, args, kw):
        def deco(c):
            c.fields = None
            import ast
            names = [t.target.id for t in c.node.body if isinstance(t, ast.AnnAssign)]
            if "__init__" not in c.vars:
                def init(a, k, c=c):
                    o = a[0]
                    vals = dict(zip(names, a[1:]))
                    vals.update(k)
                    for n in names:
                        if n not in vals:
                            d, cc = c.lookup(n)
                            if cc is None:
                                raise PyRaise("TypeError", "missing " + n)
                            vals[n] = d
                    o.attrs.update(vals)
                    return None
                c.vars["__init__"] = I.Builtin("__init__", init)
            return c
        if args:
            return deco(args[0])
        return I.Builtin("dataclass", lambda a, k: deco(a[0]))

    # ------------------------------------------------------------ jax
    def names_of(self, v):
        if v is None:
            return ()
        if isinstance(v, str):
            return (v,)
        if isinstance(v, int):
            return (v,)
        return tuple(v)

    def x_jax_jit(self, args, kw):
        def mk(f):
            return I.Jit(f, self.names_of(kw.get("static_argnames")), self.names_of(kw.get("static_argnums")))
        if args:
            return mk(args[0])
        return I.Builtin("jit", lambda a, k: mk(a[0]))

    def x_jax_vmap(self, args, kw):
        def mk(f):
            return I.Vmap(f, kw.get("in_axes", args[1] if len(args) > 1 else 0), kw.get("out_axes", args[2] if len(args) > 2 else 0))
        if args:
            return mk(args[0])
        return I.Builtin("vmap", lambda a, k: mk(a[0]))

    def x_jax_custom_jvp(self, args, kw):
        nd = self.names_of(kw.get("nondiff_argnums"))
        if args:
            return I.CustomJVP(args[0], nd)
        return I.Builtin("custom_jvp", lambda a, k: I.CustomJVP(a[0], nd))

    def x_jax_checkpoint(self, args, kw):
        if args:
            return I.Ckpt(args[0])
        return I.Builtin("ckpt", lambda a, k: I.Ckpt(a[0]))

    x_jax_remat = x_jax_checkpoint
    x_jax_ad_checkpoint_checkpoint = x_jax_checkpoint

    def x_jax_grad(self, args, kw):
        return I.Deriv(args[0], "grad", kw)

    def x_jax_value_and_grad(self, args, kw):
        return I.Deriv(args[0], "value_and_grad", kw)

    def x_jax_jacfwd(self, args, kw):
        return I.Deriv(args[0], "jac", kw)

    x_jax_jacrev = x_jax_jacfwd

    def call_deriv(self, d, args, kw):
        raise Unsupported("derivative transform")

    def x_jax_tree_map(self, args, kw):
        f = args[0]
        return I.tree_map(lambda *a: self.it.call(f, list(a), {}), *args[1:])

    x_jax_tree_util_tree_map = x_jax_tree_map
    x_jax_tree_map = x_jax_tree_map

    def x_jax_nn_sigmoid(self, args, kw):
        return self.finish(sigmoid(args[0]), False, args)

    def x_jax_nn_relu(self, args, kw):
        return self.finish(M.maximum(args[0], 0), False, args)

    def x_jax_device_put(self, args, kw):
        return args[0]

    def x_jax_block_until_ready(self, args, kw):
        return args[0]

    def x_jax_debug_print(self, args, kw):
        return None

    def x_jax_random_PRNGKey(self, args, kw):
        s = args[0] if args else kw.get("seed")
        s = A(s)
        n = s.item()
        if T.cval(n) is None:
            self.it.effects.append(("seed", T.show(n), T.CUR_LOC[0]))
        k = T.fn("prng", (n,), real=True)
        a = np.empty((2,), dtype=object)
        a[0] = T.fn("key0", (k,), real=True)
        a[1] = T.fn("key1", (k,), real=True)
        return Arr(a, "i", False)

    x_jax_random_key = x_jax_random_PRNGKey

    def x_jax_random_split(self, args, kw):
        k = A(args[0])
        n = args[1] if len(args) > 1 else kw.get("num", 2)
        n = M.concrete_int(n)
        out = np.empty((n, 2), dtype=object)
        for i in range(n):
            for j in range(2):
                out[i, j] = T.fn("keysplit", tuple(k.a.flat), data=(i, j), real=True)
        return Arr(out, "i", False)

    def rnd(self, kind, args, kw, shape_pos=1):
        k = A(args[0])
        shape = kw.get("shape", args[shape_pos] if len(args) > shape_pos else ())
        sh = M.shape_of(shape)
        out = np.empty(sh, dtype=object)
        lo = A(kw.get("minval", args[3] if len(args) > 3 else 0)).item()
        hi = A(kw.get("maxval", args[4] if len(args) > 4 else 1)).item()
        for i in np.ndindex(*sh):
            u = T.fn("rand", tuple(k.a.flat), data=(kind, sh, i), real=True)
            out[i] = u if kind != "uniform" else T.add(lo, T.mul(T.sub(hi, lo), u))
        return Arr(out, "f", False)

    def x_jax_random_uniform(self, args, kw):
        return self.rnd("uniform", args, kw)

    def x_jax_random_normal(self, args, kw):
        return self.rnd("normal", args, kw)

    def x_jax_ensure_compile_time_eval(self, args, kw):
        return I.Opaque("ctx")

    # ------------------------------------------------------------ lax
    def lax(self, n, args, kw):
        it = self.it
        f = getattr(self, "lax_" + n, None)
        if f is not None:
            return f(args, kw)
        simple = {"select": M.where, "add": _prod2("+"), "sub": _prod2("-"), "mul": _prod2("*"), "div": _prod2("/"), "abs": M.aabs,
                  "max": M.maximum, "min": M.minimum, "sqrt": M.sqrt, "exp": _exp, "log": _log, "sin": _sin, "cos": _cos, "neg": M.neg,
                  "conj": M.conj, "real": M.real, "imag": M.imag, "clamp": lambda lo, x, hi: M.clip(x, lo, hi), "eq": _cmp("=="),
                  "lt": _cmp("<"), "gt": _cmp(">"), "le": _cmp("<="), "ge": _cmp(">="), "sort": M.sort, "rsqrt": lambda x: _recip(M.sqrt(x)),
                  "square": _square, "reciprocal": _recip, "integer_pow": _prod2("**"), "pow": _prod2("**"),
                  "complex": lambda a, b: M.binop("+", A(a), M.binop("*", M.lit(1j), A(b))), "lgamma": gammaln_fn,
                  "expand_dims": M.expand_dims, "squeeze": M.squeeze, "cumsum": M.cumsum, "floor": _floor, "sign": _sgn, "rem": _prod2("%")}
        if n in simple:
            return self.finish(simple[n](*args, **kw), False, args)
        raise Unsupported("jax.lax.%s" % n)

    def lax_stop_gradient(self, args, kw):
        it = self.it
        it.effects.append(("stop_gradient", None, T.CUR_LOC[0]))
        return args[0]

    def pred(self, p):
        if isinstance(p, bool):
            return T.bconst(p)
        p = A(p)
        if p.size != 1 or p.ndim > 0:
            raise PyRaise("TypeError", "lax.cond predicate must be a scalar, got shape %s" % (p.shape,))
        return T.tobool(p.item())

    def lax_cond(self, args, kw):
        it = self.it
        kw = dict(kw)
        linear = kw.pop("linear", None)
        args = list(args)
        names = ["pred", "true_fun", "false_fun"]
        for k in names[len(args):]:
            if k in kw:
                args.append(kw.pop(k))
        p, tf, ff = args[:3]
        ops = args[3:]
        if "operand" in kw:
            ops = [kw["operand"]]
        c = self.pred(p)
        ops = [I.mark_traced(o) if o is not None and not isinstance(o, (I.Func,)) else o for o in ops]

        def run(fn):
            return it.traced(lambda: it.call(fn, list(ops), {}))
        if c.op == "b":
            taken, other = (tf, ff) if c.data else (ff, tf)
            r = run(taken)
            return I.tree_map(lambda v: self.finish(A(v), False, (Arr(T.ZERO, "f", False, True),)), r)
        x = run(tf)
        y = run(ff)
        return M.select_tree(Arr(c, "b", False, True), x, y)

    def lax_switch(self, args, kw):
        it = self.it
        idx, branches = args[0], list(args[1])
        ops = [I.mark_traced(o) for o in args[2:]]
        outs = [it.traced(lambda: it.call(b, list(ops), {})) for b in branches]
        n = A(idx).item()
        k = len(branches)
        v = T.cval(n)
        if v is not None:
            return outs[max(0, min(k - 1, int(v)))]
        r = outs[-1]
        for j in range(k - 2, -1, -1):
            c = T.le(n, T.num(0)) if j == 0 else M.int_eq(n, T.num(j))
            if M.leaves_const(n):
                c = T.bor(*[M.int_eq(n, T.num(q)) for q in range(-3, 1)]) if j == 0 else c
            r = M.select_tree(Arr(c, "b", False, True), outs[j], r)
        return r

    def lax_scan(self, args, kw):
        it = self.it
        kw = dict(kw)
        args = list(args)
        for k in ["f", "init", "xs", "length"][len(args):]:
            args.append(kw.pop(k, None))
        f, init, xs, length = args[:4]
        rev = bool(kw.get("reverse", False))
        carry = I.mark_traced(init) if init is not None else None
        leaves = I.tree_leaves(xs) if xs is not None else []
        if leaves:
            ns = {A(l).shape[0] for l in leaves}
            if len(ns) != 1:
                raise PyRaise("ValueError", "scan got inconsistent lengths")
            n = ns.pop()
        else:
            n = M.concrete_int(length)
        ys = []
        for i in (range(n - 1, -1, -1) if rev else range(n)):
            x = I.tree_map(lambda l: I.mark_traced(M.like(M.wrap(A(l).a[i]), A(l))), xs) if xs is not None else None
            r = it.traced(lambda: it.call(f, [carry, x], {}))
            if not isinstance(r, tuple) or len(r) != 2:
                raise PyRaise("TypeError", "scan body must return a pair")
            c2, y = r
            self.check_carry(carry, c2, "scan")
            carry = I.tree_map(lambda v: I.mark_traced(v), c2) if c2 is not None else None
            ys.append(y)
        if rev:
            ys.reverse()
        if not ys:
            x = I.tree_map(lambda l: I.mark_traced(M.like(M.wrap(I.blank(A(l))), A(l))), xs) if xs is not None else None
            y = it.traced(lambda: it.call(f, [carry, x], {}))[1]
            return carry, I.tree_map(lambda l: M.like(A(l).a[:0], A(l)), it.stack_trees([y], 0, True)) if y is not None else None
        return carry, it.stack_trees(ys, 0, True)

    def check_carry(self, a, b, what):
        la, lb = I.tree_leaves(a), I.tree_leaves(b)
        if len(la) != len(lb):
            raise PyRaise("TypeError", "%s carry changes structure" % what)
        for x, y in zip(la, lb):
            x, y = A(x), A(y)
            if x.shape != y.shape:
                raise PyRaise("TypeError", "%s carry changes shape %s -> %s" % (what, x.shape, y.shape))
            if x.dt != y.dt:
                raise PyRaise("TypeError", "%s carry changes type" % what)

    def lax_map(self, args, kw):
        it = self.it
        f = args[0] if args else kw["f"]
        xs = args[1] if len(args) > 1 else kw["xs"]
        leaves = I.tree_leaves(xs)
        n = A(leaves[0]).shape[0]
        ys = []
        for i in range(n or 1):
            x = I.tree_map(lambda l: I.mark_traced(M.like(M.wrap(A(l).a[i] if n else I.blank(A(l))), A(l))), xs)
            ys.append(it.traced(lambda: it.call(f, [x], {})))
        r = it.stack_trees(ys, 0, True)
        return r if n else I.tree_map(lambda l: M.like(A(l).a[:0], A(l)), r)

    def lax_fori_loop(self, args, kw):
        it = self.it
        args = list(args)
        for k in ["lower", "upper", "body_fun", "init_val"][len(args):]:
            args.append(kw[k])
        lo, hi, body, init = args[:4]

        def bound(v):
            if isinstance(v, int):
                return int(v)
            c = T.cval(A(v).item())
            if c is None:
                raise Unsupported("symbolic loop bound")
            return int(c)
        lo, hi = bound(lo), bound(hi)
        val = I.mark_traced(init)
        for i in range(lo, hi):
            r = it.traced(lambda: it.call(body, [I.mark_traced(i), val], {}))
            self.check_carry(val, r, "fori_loop")
            val = I.mark_traced(r)
        return val

    def lax_while_loop(self, args, kw):
        it = self.it
        args = list(args)
        for k in ["cond_fun", "body_fun", "init_val"][len(args):]:
            args.append(kw[k])
        cond, body, init = args[:3]
        init = I.mark_traced(init)
        if it.while_hook is not None:
            r = it.while_hook(cond, body, init)
            if r is not NotImplemented:
                return r
        return self.opaque_while(cond, body, init)

    def opaque_while(self, cond, body, init):
        it = self.it
        it.wcount += 1
        depth = it.wcount
        leaves = I.tree_leaves(init)
        k = [0]

        def mk(l):
            l = A(l)
            out = np.empty(l.shape, dtype=object)
            for i in np.ndindex(*l.shape):
                nm = "loop.%d.%s.%s" % (k[0], "x".join(map(str, l.shape)), ",".join(map(str, i)))
                out[i] = T.bsym(nm) if l.dt == "b" else T.sym(nm, l.dt != "c")
            k[0] += 1
            return Arr(out, l.dt, False, True)
        st = I.tree_map(mk, init)
        c = it.traced(lambda: it.call(cond, [st], {}))
        b = it.traced(lambda: it.call(body, [st], {}))
        self.check_carry(st, b, "while_loop")
        ins = [T.tonum(x) if not x.isbool else T.ite(x, T.ONE, T.ZERO) for l in leaves for x in A(l).a.flat]
        cn = T.ite(A(c).item(), T.ONE, T.ZERO)
        bs = [T.tonum(x) if not x.isbool else T.ite(x, T.ONE, T.ZERO) for l in I.tree_leaves(b) for x in A(l).a.flat]
        j = [0]

        def out(l):
            l = A(l)
            o = np.empty(l.shape, dtype=object)
            for i in np.ndindex(*l.shape):
                n = T.fn("while", [cn] + bs + ins, data=(j[0], len(bs)), real=l.dt != "c")
                j[0] += 1
                o[i] = T.tobool(n) if l.dt == "b" else n
            return Arr(o, l.dt, False, True)
        return I.tree_map(out, init)

    def lax_dynamic_slice(self, args, kw):
        x, s, z = args[0], args[1], args[2] if len(args) > 2 else kw["slice_sizes"]
        return self.finish(M.dynamic_slice(A(x), list(s) if not isinstance(s, Arr) else s, z), False, args)

    def lax_dynamic_slice_in_dim(self, args, kw):
        x, s, z = args[:3] if len(args) > 2 else (args[0], args[1], kw["slice_size"])
        ax = args[3] if len(args) > 3 else kw.get("axis", 0)
        x = A(x)
        st = [0] * x.ndim
        st[ax] = s
        sz = list(x.shape)
        sz[ax] = z
        return self.finish(M.dynamic_slice(x, st, sz), False, args)

    def lax_dynamic_index_in_dim(self, args, kw):
        x, s = A(args[0]), args[1]
        ax = args[2] if len(args) > 2 else kw.get("axis", 0)
        keep = args[3] if len(args) > 3 else kw.get("keepdims", True)
        st = [0] * x.ndim
        st[ax] = s
        sz = list(x.shape)
        sz[ax] = 1
        r = M.dynamic_slice(x, st, sz)
        return self.finish(r if keep else M.squeeze(r, ax), False, args)

    def lax_top_k(self, args, kw):
        x, k = A(args[0]), args[1] if len(args) > 1 else kw["k"]
        o = M.argsort(M.neg(x) if x.dt != "b" else M.neg(M.cast(x, "int")))
        ix = M.getitem(o, slice(0, k))
        return self.finish((M.getitem(x, ix), ix), False, args)

    # ------------------------------------------------------------ array attributes
    def arr_attr(self, x, k):
        if k == "shape":
            return x.shape
        if k == "ndim":
            return x.ndim
        if k == "size":
            return x.size
        if k == "dtype":
            return {"b": M.DTYPES["bool"], "i": M.DTYPES["int64"], "f": M.DTYPES["float64"], "c": M.DTYPES["complex128"]}[x.dt]
        if k == "T":
            return M.like(x.a.T, x)
        if k == "mT":
            return M.like(np.swapaxes(x.a, -1, -2), x)
        if k == "real":
            return M.real(x)
        if k == "imag":
            return M.imag(x)
        if k == "at":
            if x.isnp and not x.weak:
                raise PyRaise("AttributeError", "NumPy arrays have no .at")
            return I.At(x)
        B = lambda f: I.Builtin("ndarray." + k, f)
        if k == "astype":
            return B(lambda a, kw: self.keep(M.cast(x, a[0] if a else kw["dtype"]), x))
        if k == "reshape":
            return B(lambda a, kw: self.keep(M.reshape(x, *a, **kw), x))
        if k in ("flatten", "ravel"):
            return B(lambda a, kw: M.reshape(x, -1))
        if k == "transpose":
            return B(lambda a, kw: M.transpose(x, (a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a)) or None))
        if k in ("copy", "block_until_ready"):
            return B(lambda a, kw: M.like(x.a.copy(), x))
        if k == "item":
            return B(lambda a, kw: self.b_float([x], {}) if x.dt == "f" else self.b_int([x], {}))
        if k == "tolist":
            def tl(a, kw):
                if x.traced:
                    raise TraceError("ConcretizationTypeError", "tolist of runtime data")
                return [v for v in x]
            return B(tl)
        if k == "fill":
            def fill(a, kw):
                if not x.isnp:
                    raise PyRaise("AttributeError", "fill")
                for i in np.ndindex(*x.shape):
                    x.a[i] = A(a[0]).item()
                self.it.effect("mutate", x, "fill")
            return B(fill)
        if k == "sort" and x.isnp:
            def srt(a, kw):
                x.a[...] = M.sort(x, *a, **kw).a
                self.it.effect("mutate", x, "sort")
            return B(srt)
        ren = {"conj": "conj", "conjugate": "conj"}.get(k, k)
        if ren in ("sum", "prod", "mean", "any", "all", "max", "min", "argmax", "argmin", "argsort", "sort", "cumsum", "cumprod",
                   "squeeze", "swapaxes", "conj", "dot", "clip", "round", "repeat", "take", "trace", "var", "searchsorted", "nonzero", "ptp"):
            host = x.isnp
            return B(lambda a, kw: self.array_fn(["np" if host else "jnp", ren], [x] + list(a), kw, "ndarray." + ren))
        if k in ("__len__",):
            return B(lambda a, kw: len(x))
        if k == "nbytes":
            return x.size * 8
        if k == "is_integer":
            return B(lambda a, kw: T.cval(x.item()) is not None and T.cval(x.item()).denominator == 1)
        raise PyRaise("AttributeError", "array has no attribute %s" % k)

    def keep(self, r, x):
        r.isnp = x.isnp
        r.traced = r.traced or x.traced or (M.TRACING[0] > 0 and not x.isnp)
        return r

    def at_update(self, o, k, a, kw):
        if k == "get":
            return self.it.getitem(o.x, o.i)
        if k == "apply":
            raise Unsupported("at.apply")
        if k == "power":
            raise Unsupported("at.power")
        i = o.i
        r = M.setitem(o.x, i, a[0], k)
        return self.finish(r, False, [o.x, a[0]] + [t for t in (i if isinstance(i, tuple) else (i,)) if isinstance(t, Arr)])

    def container_attr(self, o, k):
        it = self.it
        B = lambda f: I.Builtin(k, f)

        def mut(f):
            def g(a, kw):
                it.effect("mutate", o, k)
                return f(a, kw)
            return B(g)
        if isinstance(o, list):
            if k == "append":
                return mut(lambda a, kw: o.append(a[0]))
            if k == "extend":
                return mut(lambda a, kw: o.extend(it.iterate(a[0])))
            if k == "insert":
                return mut(lambda a, kw: o.insert(a[0], a[1]))
            if k == "pop":
                return mut(lambda a, kw: o.pop(*a))
            if k == "reverse":
                return mut(lambda a, kw: o.reverse())
            if k == "copy":
                return B(lambda a, kw: list(o))
            if k == "index":
                return B(lambda a, kw: o.index(a[0]))
            if k == "clear":
                return mut(lambda a, kw: o.clear())
        if isinstance(o, dict):
            if k == "get":
                return B(lambda a, kw: o.get(I.hashable(a[0]), a[1] if len(a) > 1 else kw.get("default")))
            if k == "items":
                return B(lambda a, kw: [tuple(t) for t in o.items()])
            if k == "keys":
                return B(lambda a, kw: list(o.keys()))
            if k == "values":
                return B(lambda a, kw: list(o.values()))
            if k == "copy":
                return B(lambda a, kw: dict(o))
            if k == "pop":
                def pop(a, kw):
                    if I.hashable(a[0]) in o:
                        return o.pop(I.hashable(a[0]))
                    if len(a) > 1:
                        return a[1]
                    raise PyRaise("KeyError", str(a[0]))
                return mut(pop)
            if k == "setdefault":
                return mut(lambda a, kw: o.setdefault(I.hashable(a[0]), a[1] if len(a) > 1 else None))
            if k == "update":
                def upd(a, kw):
                    for t in a:
                        o.update(t if isinstance(t, dict) else dict(t))
                    o.update(kw)
                return mut(upd)
            if k == "clear":
                return mut(lambda a, kw: o.clear())
        if isinstance(o, str):
            if k in ("lower", "upper", "strip", "startswith", "endswith", "split", "replace", "title"):
                return B(lambda a, kw: getattr(o, k)(*a))
            if k in ("format", "join"):
                return B(lambda a, kw: "<formatted>")
        if isinstance(o, tuple):
            if k == "index":
                return B(lambda a, kw: o.index(a[0]))
            if k == "count":
                return B(lambda a, kw: o.count(a[0]))
            if len(o) == 2 and o[0] == "property" and k in ("setter", "getter"):
                return B(lambda a, kw: o)
        if isinstance(o, set):
            if k == "add":
                return mut(lambda a, kw: o.add(I.hashable(a[0])))
        raise PyRaise("AttributeError", "%s.%s" % (type(o).__name__, k))

    # ------------------------------------------------------------ Python builtins
    def b_int(self, a, kw):
        x = a[0] if a else 0
        if isinstance(x, (int, bool)):
            return int(x)
        if isinstance(x, str):
            return int(x)
        x = A(x)
        if x.traced:
            raise TraceError("ConcretizationTypeError", "int() of runtime data")
        if x.size != 1:
            raise PyRaise("TypeError", "only length-1 arrays can be converted")
        c = T.cval(x.item())
        if c is None:
            r = M.cast(x, "int")
            r = Arr(r.a.reshape(()), "i", True, False)
            return r
        return int(c)

    def b_float(self, a, kw):
        x = a[0] if a else 0
        if isinstance(x, str):
            return M.lit(float(x))
        if isinstance(x, (bool, int)):
            return Arr(T.num(int(x)), "f", True, False)
        x = A(x)
        if x.traced:
            raise TraceError("ConcretizationTypeError", "float() of runtime data")
        if x.size != 1:
            raise PyRaise("TypeError", "only length-1 arrays can be converted")
        if x.dt == "c":
            raise PyRaise("TypeError", "float() of complex")
        return Arr(T.tonum(x.item()), "f", True, False)

    def b_complex(self, a, kw):
        for x in a:
            if isinstance(x, Arr) and x.traced:
                raise TraceError("ConcretizationTypeError", "complex() of runtime data")
        n = T.tonum(A(a[0]).item())
        if len(a) > 1:
            n = T.add(n, T.mul(T.I, T.tonum(A(a[1]).item())))
        return Arr(n, "c", True, False)

    def builtins(self):
        it = self.it
        Bd = {}

        def b(name, f):
            Bd[name] = I.Builtin(name, f)
        b("len", lambda a, kw: len(a[0]) if isinstance(a[0], (Arr, list, tuple, dict, str, range, set)) else self.bad("len of %s" % I.describe(a[0])))
        b("range", lambda a, kw: range(*[M.concrete_int(v) for v in a]))
        b("int", self.b_int)
        b("float", self.b_float)
        b("complex", self.b_complex)
        b("bool", self.b_bool)
        b("abs", lambda a, kw: abs(a[0]) if isinstance(a[0], int) else M.aabs(a[0]))
        b("print", lambda a, kw: None)
        b("zip", lambda a, kw: [tuple(t) for t in zip(*[it.iterate(v) for v in a])])
        b("enumerate", lambda a, kw: [(i + kw.get("start", a[1] if len(a) > 1 else 0), v) for i, v in enumerate(it.iterate(a[0]))])
        b("list", lambda a, kw: list(it.iterate(a[0])) if a else [])
        b("tuple", lambda a, kw: tuple(it.iterate(a[0])) if a else ())
        b("set", lambda a, kw: set(I.hashable(v) for v in it.iterate(a[0])) if a else set())
        b("frozenset", lambda a, kw: set(I.hashable(v) for v in it.iterate(a[0])) if a else set())
        b("dict", self.b_dict)
        b("str", lambda a, kw: str(a[0]) if isinstance(a[0], (int, str)) else "<str>")
        b("repr", lambda a, kw: "<repr>")
        b("sum", self.b_sum)
        b("max", lambda a, kw: self.b_extreme(a, kw, "max"))
        b("min", lambda a, kw: self.b_extreme(a, kw, "min"))
        b("any", lambda a, kw: self.b_anyall(a, False))
        b("all", lambda a, kw: self.b_anyall(a, True))
        b("map", lambda a, kw: [it.call(a[0], list(t), {}) for t in zip(*[it.iterate(v) for v in a[1:]])])
        b("filter", lambda a, kw: [v for v in it.iterate(a[1]) if it.truth(it.call(a[0], [v], {}) if a[0] is not None else v)])
        b("reversed", lambda a, kw: list(it.iterate(a[0]))[::-1])
        b("sorted", self.b_sorted)
        b("isinstance", self.b_isinstance)
        b("callable", lambda a, kw: isinstance(a[0], (I.Func, I.Jit, I.Vmap, I.Builtin, I.Partial, I.CustomJVP, I.Bound, I.Ext, I.Cls, I.Ckpt)))
        b("getattr", self.b_getattr)
        b("hasattr", self.b_hasattr)
        b("setattr", lambda a, kw: it.setattr(a[0], a[1], a[2]))
        b("type", self.b_type)
        b("id", lambda a, kw: id(a[0]))
        b("slice", lambda a, kw: slice(*a))
        b("pow", lambda a, kw: it.binop("**", a[0], a[1]))
        b("divmod", lambda a, kw: (it.binop("//", a[0], a[1]), it.binop("%", a[0], a[1])))
        b("round", lambda a, kw: round(a[0]) if isinstance(a[0], int) else self.b_round(a))
        b("iter", lambda a, kw: list(it.iterate(a[0])))
        b("next", lambda a, kw: it.iterate(a[0])[0])
        b("super", self.b_super)
        b("property", lambda a, kw: ("property", a[0]))
        b("staticmethod", lambda a, kw: ("static", a[0]))
        b("classmethod", lambda a, kw: ("classm", a[0]))
        b("open", lambda a, kw: (it.effects.append(("impure", "open", T.CUR_LOC[0])), I.Opaque("file"))[1])
        b("input", lambda a, kw: (it.effects.append(("impure", "input", T.CUR_LOC[0])), "")[1])
        b("globals", lambda a, kw: (it.effects.append(("impure", "globals", T.CUR_LOC[0])), {})[1])
        b("vars", lambda a, kw: a[0].attrs if isinstance(a[0], I.Obj) else self.bad("vars"))
        for ex in ("ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "NotImplementedError", "Exception", "AssertionError",
                   "AttributeError", "ZeroDivisionError", "ImportError", "ArithmeticError", "OverflowError", "FloatingPointError",
                   "BaseException", "StopIteration", "UserWarning", "DeprecationWarning", "RuntimeWarning", "Warning", "NameError", "LookupError",
                   "ModuleNotFoundError"):
            Bd[ex] = I.ExcType(ex)
        Bd["object"] = I.Ext("object")
        Bd["Ellipsis"] = Ellipsis
        Bd["NotImplemented"] = I.Opaque("NotImplemented")
        Bd["__name__"] = "module"
        Bd["__file__"] = "file"
        return Bd

    def bad(self, m):
        raise PyRaise("TypeError", m)

    def b_bool(self, a, kw):
        if not a:
            return False
        r = self.it.truth_or_sym(a[0])
        return r if isinstance(r, bool) else Arr(r, "b", True, False)

    def b_round(self, a):
        x = A(a[0])
        if x.traced:
            return _round(x)
        c = T.cval(x.item())
        if c is None:
            raise Unsupported("round of symbol")
        return round(c) if len(a) == 1 else M.lit(Fraction(round(c, M.concrete_int(a[1]))))

    def b_dict(self, a, kw):
        d = {}
        if a:
            d.update(a[0] if isinstance(a[0], dict) else {I.hashable(k): v for k, v in (tuple(self.it.iterate(t)) for t in self.it.iterate(a[0]))})
        d.update(kw)
        return d

    def b_sum(self, a, kw):
        acc = a[1] if len(a) > 1 else kw.get("start", 0)
        for v in self.it.iterate(a[0]):
            acc = self.it.binop("+", acc, v)
        return acc

    def b_extreme(self, a, kw, which):
        vs = list(self.it.iterate(a[0])) if len(a) == 1 else list(a)
        if "key" in kw:
            raise Unsupported("key function")
        if all(isinstance(v, int) for v in vs):
            return max(vs) if which == "max" else min(vs)
        for v in vs:
            if isinstance(v, Arr) and v.traced:
                raise TraceError("TracerBoolConversionError", "builtin %s on runtime data" % which)
        r = A(vs[0])
        for v in vs[1:]:
            r = (M.maximum if which == "max" else M.minimum)(r, A(v))
        c = T.cval(r.item())
        r.weak = True
        return r

    def b_anyall(self, a, isall):
        acc = []
        for v in self.it.iterate(a[0]):
            b = self.it.truth_or_sym(v)
            if isinstance(b, bool):
                if b != isall:
                    return b
            else:
                acc.append(b)
        if acc:
            return Arr((T.band if isall else T.bor)(*acc), "b", True, False)
        return isall

    def b_sorted(self, a, kw):
        vs = list(self.it.iterate(a[0]))
        if "key" in kw or not all(isinstance(v, (int, str)) for v in vs):
            raise Unsupported("sorted")
        return sorted(vs, reverse=bool(kw.get("reverse", False)))

    def b_isinstance(self, a, kw):
        v, ts = a
        ts = ts if isinstance(ts, tuple) else (ts,)
        for t in ts:
            if isinstance(t, I.Builtin):
                r = {"int": lambda: isinstance(v, int), "bool": lambda: isinstance(v, bool),
                     "float": lambda: isinstance(v, Arr) and v.weak and v.dt == "f" and not v.traced, "str": lambda: isinstance(v, str),
                     "complex": lambda: isinstance(v, Arr) and v.weak and v.dt == "c" and not v.traced,
                     "tuple": lambda: isinstance(v, tuple) or isinstance(v, I.Obj) and v.cls.fields is not None,
                     "list": lambda: isinstance(v, list), "dict": lambda: isinstance(v, dict), "slice": lambda: isinstance(v, slice),
                     "set": lambda: isinstance(v, set)}.get(t.name, lambda: False)()
            elif isinstance(t, I.Ext):
                last = t.name.split(".")[-1]
                if last in ("ndarray", "Array") and t.name.startswith("jax"):
                    r = isinstance(v, Arr) and not v.isnp and not v.weak
                elif last == "ndarray":
                    r = isinstance(v, Arr) and v.isnp and not v.weak
                elif last in ("Tracer",):
                    r = isinstance(v, Arr) and v.traced
                elif last in ("integer", "floating", "generic", "number", "Number", "Real"):
                    r = isinstance(v, int) and last in ("Number", "Real") or isinstance(v, Arr) and v.weak and not v.traced and last in ("Number", "Real")
                elif last in ("Sequence", "Mapping", "Callable"):
                    r = {"Sequence": isinstance(v, (list, tuple, str)), "Mapping": isinstance(v, dict), "Callable": isinstance(v, I.Func)}[last]
                else:
                    raise Unsupported("isinstance %s" % t.name)
            elif isinstance(t, I.Cls):
                r = isinstance(v, I.Obj) and t in v.cls.mro()
            else:
                raise Unsupported("isinstance")
            if r:
                return True
        return False

    def b_getattr(self, a, kw):
        try:
            return self.it.getattr(a[0], a[1])
        except PyRaise as e_:
            if e_.kind == "AttributeError" and len(a) > 2:
                return a[2]
            raise

    def b_hasattr(self, a, kw):
        try:
            self.it.getattr(a[0], a[1])
            return True
        except PyRaise as e_:
            if e_.kind == "AttributeError":
                return False
            raise

    def b_type(self, a, kw):
        v = a[0]
        if isinstance(v, I.Obj):
            return v.cls
        if isinstance(v, bool):
            return self.it.builtins["bool"]
        if isinstance(v, int):
            return self.it.builtins["int"]
        for t, n in ((str, "str"), (tuple, "tuple"), (list, "list"), (dict, "dict")):
            if isinstance(v, t):
                return self.it.builtins[n]
        raise Unsupported("type()")

    def b_super(self, a, kw):
        return I.Super(a[0], a[1])
