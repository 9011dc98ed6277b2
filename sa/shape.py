"""Type-level interpretation: the interpreter is run with every runtime value forgotten.

Inside `mode(it)` each operation on runtime data yields a fresh unknown of the right kind, so only the things the JAX
compiler sees remain: shapes, kinds, and whether a value is known while tracing.  Loops over batches and scans are walked
once, with an arbitrary element; while loops once, with an arbitrary state; both branches of every lax.cond are walked and
their result types compared."""
import contextlib
import itertools

import numpy as np

from . import interp as I
from . import model as M
from . import nf
from . import terms as T
from .model import A, Arr, PyRaise, TraceError

_real_mk = T._mk
_count = itertools.count()


def unknown(real=True, boolean=False):
    if boolean:
        return _real_mk("bsym", (), "?%d" % next(_count), True, True)
    return _real_mk("sym", (), ("?%d" % next(_count), bool(real), False), bool(real))


def _mk(op, args, data, isreal, isbool=False):
    if op in ("c", "b", "sym", "bsym"):
        return _real_mk(op, args, data, isreal, isbool)
    if op == "fn" and data[0] in WHOLE or op in ("add", "mul", "ite") and all(M.whole(a) for a in args if not a.isbool):
        return _real_mk("sym", (), ("?w%d" % next(_count), True, False), True)
    return unknown(isreal, isbool)


WHOLE = {"floor", "ceil", "rint", "trunc", "round", "sign", "argsort", "argmax", "argmin", "searchsorted", "count", "digitize"}


def fresh(dt, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = unknown(dt != "c", dt == "b") if dt != "i" else _real_mk("sym", (), ("?w%d" % next(_count), True, False), True)
    return Arr(out, dt, False, True)


def forget(x):
    """an arbitrary array of the same type"""
    x = A(x)
    return fresh(x.dt, x.shape)


def spread(x, n, axis=0):
    """n arbitrary arrays of the same type stacked"""
    x = A(x)
    sh = list(x.shape)
    sh.insert(axis if axis >= 0 else len(sh) + 1 + axis, n)
    return fresh(x.dt, tuple(sh))


def compare(a, b, what):
    la, lb = I.tree_leaves(a), I.tree_leaves(b)
    if len(la) != len(lb):
        raise TraceError("TypeError", "%s: results have different structures" % what)
    for x, y in zip(la, lb):
        if x is None and y is None:
            continue
        x, y = A(x), A(y)
        if x.shape != y.shape:
            raise TraceError("TypeError", "%s: results have different shapes %s and %s" % (what, x.shape, y.shape))
        if x.dt != y.dt and not x.weak and not y.weak:
            raise TraceError("TypeError", "%s: results have different types (%s and %s)" % (what, x.dt, y.dt))


@contextlib.contextmanager
def mode(it):
    lib = it.lib
    T._mk = _mk
    M.TYPES_ONLY[0] = fresh

    def call_vmap(f, args, kw):
        ax = f.in_axes
        axes = list(ax) if isinstance(ax, (tuple, list)) else [ax] * len(args)
        ns = set()

        def cut(x, a):
            if a is None:
                return x
            if isinstance(a, (tuple, list)):
                return type(x)(cut(p, q) for p, q in zip(x, a))

            def g(l):
                l = A(l)
                if l.ndim == 0:
                    raise TraceError("ValueError", "vmap over a scalar")
                k = a if a >= 0 else l.ndim + a
                if k >= l.ndim:
                    raise TraceError("ValueError", "vmap axis %d of an array of %d dimensions" % (a, l.ndim))
                ns.add(l.shape[k])
                sh = l.shape[:k] + l.shape[k + 1:]
                return fresh(l.dt, sh)
            return I.tree_map(g, x)
        if len(axes) != len(args):
            raise TraceError("ValueError", "vmap in_axes has %d entries for %d arguments" % (len(axes), len(args)))
        a2 = [cut(x, a) for x, a in zip(args, axes)]
        k2 = {k: cut(x, 0) for k, x in kw.items()}
        if len(ns) != 1:
            raise TraceError("ValueError", "vmap got sizes %s" % sorted(ns))
        n = ns.pop()
        r = it.traced(lambda: it.call(f.fn, a2, k2))

        def back(r, o):
            if isinstance(o, (tuple, list)):
                return type(r)(back(p, q) for p, q in zip(r, o))
            return I.tree_map(lambda l: spread(l, n, o), r)
        return back(r, f.out_axes)

    def element(xs):
        return I.tree_map(lambda l: forget(Arr(np.empty(A(l).shape[1:], dtype=object), A(l).dt)), xs) if xs is not None else None

    def length(xs, what):
        ns = {A(l).shape[0] if A(l).ndim else None for l in I.tree_leaves(xs)}
        if len(ns) != 1 or None in ns:
            raise TraceError("ValueError", "%s got inconsistent lengths" % what)
        return ns.pop()

    def lax_scan(args, kw):
        kw = dict(kw)
        args = list(args)
        for k in ["f", "init", "xs", "length"][len(args):]:
            args.append(kw.pop(k, None))
        f, init, xs, n = args[:4]
        n = length(xs, "scan") if xs is not None and I.tree_leaves(xs) else M.concrete_int(n)
        carry = I.tree_map(forget, I.mark_traced(init)) if init is not None else None
        r = it.traced(lambda: it.call(f, [carry, element(xs)], {}))
        if not isinstance(r, tuple) or len(r) != 2:
            raise TraceError("TypeError", "scan body must return a pair")
        if carry is not None or r[0] is not None:
            compare(carry, r[0], "scan carry")
        return carry, I.tree_map(lambda l: spread(l, n), r[1]) if r[1] is not None else None

    def lax_map(args, kw):
        f = args[0] if args else kw["f"]
        xs = args[1] if len(args) > 1 else kw["xs"]
        n = length(xs, "map")
        return I.tree_map(lambda l: spread(l, n), it.traced(lambda: it.call(f, [element(xs)], {})))

    def lax_fori_loop(args, kw):
        args = list(args)
        for k in ["lower", "upper", "body_fun", "init_val"][len(args):]:
            args.append(kw[k])
        st = I.tree_map(forget, I.mark_traced(args[3]))
        r = it.traced(lambda: it.call(args[2], [forget(A(0)), st], {}))
        compare(st, r, "fori_loop state")
        return st

    def lax_while_loop(args, kw):
        args = list(args)
        for k in ["cond_fun", "body_fun", "init_val"][len(args):]:
            args.append(kw[k])
        st = I.tree_map(forget, I.mark_traced(args[2]))
        c = A(it.traced(lambda: it.call(args[0], [st], {})))
        if c.shape != ():
            raise TraceError("TypeError", "while_loop condition has shape %s" % (c.shape,))
        r = it.traced(lambda: it.call(args[1], [st], {}))
        compare(st, r, "while_loop state")
        return st

    def lax_cond(args, kw):
        kw = dict(kw)
        args = list(args)
        for k in ["pred", "true_fun", "false_fun"][len(args):]:
            args.append(kw.pop(k))
        ops = list(args[3:]) if "operand" not in kw else [kw["operand"]]
        p = args[0] if isinstance(args[0], bool) else A(args[0])
        if not isinstance(p, bool) and p.shape != ():
            raise TraceError("TypeError", "lax.cond predicate must be a scalar, got shape %s" % (p.shape,))
        ops = [I.mark_traced(o) if o is not None and not isinstance(o, I.Func) else o for o in ops]
        x = it.traced(lambda: it.call(args[1], list(ops), {}))
        y = it.traced(lambda: it.call(args[2], list(ops), {}))
        compare(x, y, "branches of lax.cond")
        return I.tree_map(lambda l: forget(A(l)), x) if x is not None else None

    def lax_switch(args, kw):
        ops = [I.mark_traced(o) for o in args[2:]]
        rs = [it.traced(lambda: it.call(f, list(ops), {})) for f in args[1]]
        for r in rs[1:]:
            compare(rs[0], r, "branches of lax.switch")
        return I.tree_map(forget, rs[0])

    new = dict(lax_scan=lax_scan, lax_map=lax_map, lax_fori_loop=lax_fori_loop, lax_while_loop=lax_while_loop, lax_cond=lax_cond, lax_switch=lax_switch)
    for k, v in new.items():
        setattr(lib, k, v)
    it.call_vmap = call_vmap
    try:
        yield
    finally:
        T._mk = _real_mk
        M.TYPES_ONLY[0] = None
        for k in new:
            delattr(lib, k)
        del it.call_vmap
