"""Array domain of the analyser.

An `Arr` is a small fixed-shape array whose entries are value-graph nodes.  The
functions below give the meaning of the NumPy/JAX operations used by the
analysed sources, as transfer functions on value graphs.  Nothing here executes
analysed code.
"""
from fractions import Fraction
from math import factorial, gcd
import itertools
import math
import numpy as np

from . import terms as T
from .terms import Node


class Unsupported(Exception):
    """construct outside the modelled language"""


class PyRaise(Exception):
    """the analysed program raises an exception"""

    def __init__(self, kind, msg="", loc=None):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg, self.loc = kind, msg, loc or T.CUR_LOC[0]


class TraceError(PyRaise):
    """runtime data used where a compile-time value is needed"""


EVENTS = []          # (kind, detail, loc)


def event(kind, detail):
    EVENTS.append((kind, detail, T.CUR_LOC[0]))


KINDS = "bifc"


class DT:
    """a dtype"""

    def __init__(self, kind, bits=None, name=None):
        self.kind, self.bits, self.name = kind, bits, name or kind

    def __repr__(self):
        return "dtype(%s)" % self.name

    def __eq__(self, o):
        o = to_dt(o)
        return isinstance(o, DT) and o.kind == self.kind and (o.bits or 0) == (self.bits or 0)

    def __hash__(self):
        return hash(self.kind)


DTYPES = {
    "bool_": DT("b", None, "bool"), "bool": DT("b", None, "bool"),
    "int8": DT("i", 8, "int8"), "int16": DT("i", 16, "int16"), "int32": DT("i", 32, "int32"), "int64": DT("i", None, "int64"),
    "int": DT("i", None, "int"), "int_": DT("i", None, "int"),
    "uint8": DT("i", 8, "uint8"), "uint32": DT("i", 32, "uint32"), "uint64": DT("i", None, "uint64"),
    "float16": DT("f", 16, "float16"), "bfloat16": DT("f", 16, "bfloat16"), "float32": DT("f", 32, "float32"),
    "float64": DT("f", None, "float64"), "float": DT("f", None, "float"), "float_": DT("f", None, "float"),
    "complex64": DT("c", 64, "complex64"), "complex128": DT("c", None, "complex128"), "complex": DT("c", None, "complex"),
    "double": DT("f", None, "float64"), "single": DT("f", 32, "float32"), "half": DT("f", 16, "float16"),
    "complex_": DT("c", None, "complex"), "cdouble": DT("c", None, "complex128"), "csingle": DT("c", 64, "complex64"),
}
NARROW = {"float16", "bfloat16", "float32", "complex64", "single", "half", "int8", "int16"}


def to_dt(d):
    if d is None:
        return None
    if isinstance(d, DT):
        return d
    if isinstance(d, str):
        if d in DTYPES:
            return DTYPES[d]
        raise Unsupported("dtype %s" % d)
    if d is bool:
        return DTYPES["bool"]
    if d is int:
        return DTYPES["int"]
    if d is float:
        return DTYPES["float"]
    if d is complex:
        return DTYPES["complex"]
    name = getattr(d, "dtname", None)
    if name is None and type(d).__name__ == "Builtin" and d.name in DTYPES:
        name = d.name
    if name:
        return DTYPES[name]
    raise Unsupported("dtype %r" % (d,))


TRACING = [0]


class Arr:
    __slots__ = ("a", "dt", "weak", "traced", "isnp", "mask", "parent")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, a, dt, weak=False, traced=None, isnp=False):
        if not isinstance(a, np.ndarray) or a.dtype != object:
            b = np.empty(np.shape(a) if not isinstance(a, Node) else (), dtype=object)
            if isinstance(a, Node):
                b[()] = a
            else:
                b[...] = a
            a = b
        self.a, self.dt, self.weak = a, dt, weak
        self.traced = bool(TRACING[0]) and not weak and not isnp if traced is None else traced
        self.isnp = isnp
        self.mask = None
        self.parent = None

    # --- numpy-ish interface used by specifications
    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return int(self.a.size)

    @property
    def real(self):
        return real(self)

    @property
    def imag(self):
        return imag(self)

    @property
    def T(self):
        return like(self.a.T, self)

    def item(self):
        if self.a.size != 1:
            raise Unsupported("item of non-scalar")
        return self.a.reshape(-1)[0]

    def __len__(self):
        if self.a.ndim == 0:
            raise PyRaise("TypeError", "len() of unsized object")
        return self.a.shape[0]

    def __iter__(self):
        if self.a.ndim == 0:
            raise PyRaise("TypeError", "iteration over a 0-d array")
        for i in range(self.a.shape[0]):
            yield like(wrap(self.a[i]), self)

    def __repr__(self):
        return "Arr%s<%s>%s" % (self.shape, self.dt, [T.show(x, 3) for x in self.a.reshape(-1)[:4]])

    def __add__(s, o): return binop("+", s, o)
    def __radd__(s, o): return binop("+", o, s)
    def __sub__(s, o): return binop("-", s, o)
    def __rsub__(s, o): return binop("-", o, s)
    def __mul__(s, o): return binop("*", s, o)
    def __rmul__(s, o): return binop("*", o, s)
    def __truediv__(s, o): return binop("/", s, o)
    def __rtruediv__(s, o): return binop("/", o, s)
    def __pow__(s, o): return binop("**", s, o)
    def __rpow__(s, o): return binop("**", o, s)
    def __mod__(s, o): return binop("%", s, o)
    def __floordiv__(s, o): return binop("//", s, o)
    def __matmul__(s, o): return matmul(s, o)
    def __neg__(s): return neg(s)
    def __invert__(s): return invert(s)
    def __and__(s, o): return binop("&", s, o)
    def __rand__(s, o): return binop("&", o, s)
    def __or__(s, o): return binop("|", s, o)
    def __ror__(s, o): return binop("|", o, s)
    def __lt__(s, o): return compare("<", s, o)
    def __le__(s, o): return compare("<=", s, o)
    def __gt__(s, o): return compare(">", s, o)
    def __ge__(s, o): return compare(">=", s, o)
    def eq(s, o): return compare("==", s, o)
    def ne(s, o): return compare("!=", s, o)

    def __getitem__(s, i): return getitem(s, i)

    def __bool__(self):
        raise Unsupported("truth of Arr in specification")

    def sum(self, axis=None, **k): return asum(self, axis=axis)
    def reshape(self, *s): return reshape(self, *s)
    def ravel(self): return reshape(self, -1)


def wrap(x):
    """numpy object scalar/array -> object ndarray"""
    if isinstance(x, np.ndarray):
        return x
    b = np.empty((), dtype=object)
    b[()] = x
    return b


def like(a, *src, dt=None):
    tr = any(isinstance(s, Arr) and s.traced for s in src)
    isnp = not tr and all((not isinstance(s, Arr)) or s.isnp or s.weak for s in src) and any(isinstance(s, Arr) and s.isnp for s in src)
    weak = all((not isinstance(s, Arr)) or s.weak for s in src)
    dt = dt or src[0].dt
    r = Arr(wrap(a), dt, weak, tr or (bool(TRACING[0]) and not isnp and not weak), isnp)
    for s in src:
        if isinstance(s, Arr) and s.mask is not None and s.shape == r.shape:
            r.mask, r.parent = s.mask, s.parent
    return r


def lit(x):
    """Python number -> weak Arr"""
    if isinstance(x, bool):
        return Arr(T.bconst(x), "b", True, False)
    if isinstance(x, int):
        return Arr(T.num(x), "i", True, False)
    if isinstance(x, float):
        return Arr(float_node(x), "f", True, False)
    if isinstance(x, Fraction):
        return Arr(T.num(x), "f", True, False)
    if isinstance(x, complex):
        return Arr(T.add(float_node(x.real), T.mul(T.I, float_node(x.imag))), "c", True, False)
    raise Unsupported("literal %r" % (x,))


_PI_TAB = {}
for _p in range(1, 13):
    for _q in range(1, 13):
        if gcd(_p, _q) == 1:
            _PI_TAB.setdefault(math.pi * _p / _q, ("pi", Fraction(_p, _q)))
            _PI_TAB.setdefault(_p / (_q * math.pi), ("ipi", Fraction(_p, _q)))
            _PI_TAB.setdefault(math.sqrt(_p / _q / math.pi), ("sipi", Fraction(_p, _q)))
            _PI_TAB.setdefault(math.sqrt(_p / _q * math.pi), ("spi", Fraction(_p, _q)))


def float_node(x, text=None):
    """exact node of a float literal; recognises decimal expansions of small
    rationals and of simple multiples of pi"""
    if x != x or x in (float("inf"), float("-inf")):
        return T.from_float(x)
    f = Fraction(text) if text else Fraction(repr(x))
    digits = len(str(abs(f.numerator)).rstrip("0")) if f.denominator != 1 else 0
    if digits >= 14:
        g = f.limit_denominator(40000)
        if float(g) == x:
            return T.num(g)
        s = -1 if x < 0 else 1
        k = _PI_TAB.get(abs(x))
        if k is None:
            for c in (math.nextafter(abs(x), 0), math.nextafter(abs(x), 1e300)):
                k = k or _PI_TAB.get(c)
        if k:
            r = T.num(k[1] * s) if k[0] in ("pi", "ipi") else None
            if k[0] == "pi":
                return T.mul(r, T.PI)
            if k[0] == "ipi":
                return T.div(r, T.PI)
            if k[0] == "sipi":
                return T.mul(T.num(s), T.sqrt(T.div(T.num(k[1]), T.PI)))
            return T.mul(T.num(s), T.sqrt(T.mul(T.num(k[1]), T.PI)))
        for p in (2, 3, 5, 6, 7, 10):
            if abs(x) == math.sqrt(p):
                return T.mul(T.num(s), T.sqrt(T.num(p)))
            if abs(x) in (1 / math.sqrt(p), math.sqrt(1 / p), math.sqrt(p) / p):
                return T.mul(T.num(s), T.power(T.num(p), Fraction(-1, 2)))
        if abs(x) == math.log(2):
            return T.mul(T.num(s), T.fn("log", (T.num(2),)))
        f = Fraction(repr(x))
    return T.num(f)


def A(x):
    """anything numeric -> Arr"""
    if isinstance(x, Arr):
        return x
    if isinstance(x, Node):
        return Arr(x, "b" if x.isbool else ("f" if x.isreal else "c"), False)
    if isinstance(x, (bool, int, float, complex, Fraction)):
        return lit(x)
    if isinstance(x, (list, tuple)):
        return array(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return Arr(x, "f")
    raise Unsupported("not numeric: %r" % (type(x),))


def kindmax(*ks):
    return max(ks, key=KINDS.index)


def array(x, dtype=None, isnp=False):
    if isinstance(x, Arr):
        r = like(x.a.copy(), x)
        r.weak = False
        r.isnp = isnp and not x.traced
        if TRACING[0] and not isnp:
            r.traced = True
        return cast(r, dtype) if dtype is not None else r
    if isinstance(x, (list, tuple)):
        items = [array(y, isnp=isnp) if isinstance(y, (list, tuple)) else A(y) for y in x]
        if not items:
            return Arr(np.empty((0,), dtype=object), to_dt(dtype).kind if dtype is not None else "f", False, None, isnp)
        r = stack(items)
        r.weak = False
        r.isnp = isnp and not r.traced
        return cast(r, dtype) if dtype is not None else r
    x = A(x)
    r = like(x.a, x)
    r.weak = False
    r.isnp = isnp
    if TRACING[0] and not isnp:
        r.traced = True
    return cast(r, dtype) if dtype is not None else r


def cast(x, dtype):
    x = A(x)
    d = to_dt(dtype)
    if d is None:
        return x
    k = d.kind
    if d.name in NARROW and x.dt in "fc" or (d.name in NARROW and k in "fc"):
        event("narrow", "%s data converted to %s" % ({"f": "floating", "c": "complex", "i": "integer", "b": "boolean"}[x.dt], d.name))
    if x.dt == "c" and k in "fib":
        if k != "b":
            event("discard-imag", "complex data converted to %s" % d.name)
    if x.dt == "f" and k == "i" and not all(whole(n) for n in x.a.flat):
        event("float-to-int", "floating data converted to %s" % d.name)
    if k == x.dt:
        r = like(x.a, x)
        r.weak = False
        return r
    if k == "b":
        f = lambda n: decide(T.tobool(n))
    elif k == "i":
        f = lambda n: tonum(n) if x.dt == "b" else (n if x.dt == "i" else trunc_node(T.re(n)))
    elif k == "f":
        f = lambda n: T.re(tonum(n))
    else:
        f = tonum
    r = like(emap(f, x.a), x, dt=k)
    r.weak = False
    return r


def whole(n):
    """is this node integer-valued by construction?"""
    if n.isbool:
        return True
    v = T.cval(n)
    if v is not None:
        return v == int(v) if not isinstance(v, complex) else False
    if n.op == "fn" and n.data[0] in ("floor", "ceil", "rint", "trunc", "round", "sign", "argsort", "argmax"):
        return True
    if n.op == "sym" and n.data[0].startswith("?w"):
        return True
    if n.op in ("add", "mul", "ite"):
        return all(whole(c) for c in n.args if not c.isbool)
    return False


def trunc_node(n):
    v = T.cval(n)
    if v is not None:
        return T.num(int(v))
    return T.fn("trunc", (n,), real=True)


def tonum(n):
    """bool node usable in arithmetic"""
    if n.isbool:
        if n.op == "b":
            return T.tonum(n)
        return n
    return n


def emap(f, *arrs):
    arrs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(arrs[0].shape, dtype=object)
    if len(arrs) == 1:
        for i, x in enumerate(arrs[0].flat):
            out.flat[i] = f(x)
    else:
        for i, xs in enumerate(zip(*[a.flat for a in arrs])):
            out.flat[i] = f(*xs)
    return out


def bshape(*arrs):
    try:
        np.broadcast_shapes(*[a.shape for a in arrs])
    except ValueError:
        raise PyRaise("TypeError", "incompatible shapes %s" % ([a.shape for a in arrs],))


# ------------------------------------------------------------ ite trees
def lift(f, n, memo=None):
    """apply f under the decision tree of n"""
    if n.op != "ite":
        return f(n)
    memo = {} if memo is None else memo
    r = memo.get(n.id)
    if r is None:
        r = T.ite(n.args[0], lift(f, n.args[1], memo), lift(f, n.args[2], memo))
        memo[n.id] = r
    return r


def leaves_const(n, seen=None):
    seen = set() if seen is None else seen
    if n.id in seen:
        return True
    seen.add(n.id)
    if n.op == "ite":
        return leaves_const(n.args[1], seen) and leaves_const(n.args[2], seen)
    return n.op == "c"


def int_eq(a, b):
    """a == b for integer nodes"""
    if a.op == "ite" and leaves_const(a):
        return lift(lambda x: T.eq(x, b) if b.op != "ite" else int_eq(b, x), a)
    if b.op == "ite" and leaves_const(b):
        return int_eq(b, a)
    return T.eq(a, b)


def ib(op, a, b):
    """integer arithmetic under decision trees"""
    if a.op == "ite" and leaves_const(a) and (b.op == "c" or (b.op == "ite" and leaves_const(b))):
        return lift(lambda x: ib(op, x, b), a)
    if b.op == "ite" and leaves_const(b) and a.op == "c":
        return lift(lambda x: ib(op, a, x), b)
    if op == "+":
        return T.add(a, b)
    if op == "-":
        return T.sub(a, b)
    if op == "*":
        return T.mul(a, b)
    if op == "%":
        return mod_node(a, b)
    if op == "//":
        return floordiv_node(a, b)
    raise Unsupported(op)


def settled_floor(a):
    """floor when it is settled to be one of a few integers"""
    for k in (0, -1, 1, -2, 2, -3, 3):
        if decide(T.ge(a, T.num(k))) is T.TRUE and decide(T.lt(a, T.num(k + 1))) is T.TRUE:
            return k
    return None


def mod_node(a, b):
    x, y = T.cval(a), T.cval(b)
    if DECIDE[0] and (x is None or y is None):
        for k in (0, -1, 1, -2, 2):
            r = T.sub(a, T.mul(T.num(k), b))
            if decide(T.ge(r, T.ZERO)) is T.TRUE and decide(T.lt(r, b)) is T.TRUE:
                return r
    if x is not None and y is not None and y != 0:
        return T.num(x - y * (x / y).__floor__())
    if x == 0:
        return T.ZERO
    # drop whole multiples of the modulus
    if a.op == "add" and y is not None:
        c = [t for t in a.args if t.op == "c"]
        if c and c[0].data[1] == 0:
            k = c[0].data[0]
            k2 = k - y * (k / y).__floor__()
            if k2 != k:
                a = T.add(*([t for t in a.args if t.op != "c"] + [T.num(k2)]))
    return T.fn("mod", (a, b), real=True)


def floordiv_node(a, b):
    x, y = T.cval(a), T.cval(b)
    if x is not None and y is not None and y != 0:
        return T.num((x / y).__floor__())
    return T.fn("floordiv", (a, b), real=True)


def pow_node(a, b, rhs_int=False):
    e = T.cval(b)
    if e is not None:
        if a is T.NAN:
            return T.NAN
        return T.power(a, e)
    if a is T.ONE:
        return T.ONE
    return T._mk("powx", (a, b), None, a.isreal and b.isreal)


def binop(op, x, y):
    if isinstance(x, int) and isinstance(y, int) and not isinstance(x, Arr):
        return pyint(op, x, y)
    x, y = A(x), A(y)
    bshape(x, y)
    if op == "+" or op == "-" or op == "*":
        k = kindmax(x.dt, y.dt)
        if x.dt == "b" and y.dt == "b":
            if op == "+":
                return like(emap(T.bor, x.a, y.a), x, y, dt="b")
            if op == "*":
                return like(emap(T.band, x.a, y.a), x, y, dt="b")
            raise PyRaise("TypeError", "boolean subtract")
        if k == "i":
            return like(emap(lambda a, b: ib(op, T.tonum(a), T.tonum(b)), x.a, y.a), x, y, dt="i")
        f = {"+": T.add, "-": T.sub, "*": T.mul}[op]
        return like(emap(f, x.a, y.a), x, y, dt=k)
    if op == "/":
        return like(emap(T.div, x.a, y.a), x, y, dt=kindmax(x.dt, y.dt, "f"))
    if op == "**":
        k = kindmax(x.dt, y.dt)
        r = emap(lambda a, b: pow_node(tonum(a), tonum(b)), x.a, y.a)
        return like(r, x, y, dt="i" if k in "bi" else k)
    if op == "%":
        k = kindmax(x.dt, y.dt)
        if k == "i":
            return like(emap(lambda a, b: ib("%", T.tonum(a), T.tonum(b)), x.a, y.a), x, y, dt="i")
        return like(emap(mod_node, x.a, y.a), x, y, dt=k)
    if op == "//":
        k = kindmax(x.dt, y.dt)
        return like(emap(lambda a, b: ib("//", T.tonum(a), T.tonum(b)), x.a, y.a), x, y, dt=k)
    if op in "&|^":
        if x.dt == "b" and y.dt == "b":
            f = {"&": T.band, "|": T.bor, "^": lambda a, b: T.bor(T.band(a, T.bnot(b)), T.band(T.bnot(a), b))}[op]
            return like(emap(f, x.a, y.a), x, y, dt="b")
        if x.dt in "fc" or y.dt in "fc":
            raise PyRaise("TypeError", "bitwise operation on floating data")
        raise Unsupported("integer bit operation")
    raise Unsupported("binop " + op)


def pyint(op, x, y):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "//":
        if y == 0:
            raise PyRaise("ZeroDivisionError")
        return x // y
    if op == "%":
        return x % y
    if op == "/":
        if y == 0:
            raise PyRaise("ZeroDivisionError")
        return lit(Fraction(x, y))
    if op == "**":
        return x ** y if y >= 0 else lit(Fraction(x) ** y)
    if op == "&":
        return x & y
    if op == "|":
        return x | y
    if op == "^":
        return x ^ y
    if op == "<<":
        return x << y
    if op == ">>":
        return x >> y
    raise Unsupported(op)


DECIDE = [False]    # settle every comparison that follows from the signs of the inputs


BIG = [None]
TYPES_ONLY = [None]     # set by the type-level interpretation: makes an arbitrary array of a kind and shape


def decide(n):
    if not DECIDE[0] or not n.isbool or n.op == "b":
        return n
    from . import nf
    if n.op == "pos":
        q = nf.poly(n.args[0])
        inf = nf.poly(T.INF)
        (im, _), = inf.items()
        tops = {m: c for m, c in q.items() if any(a == im[0][0] for a, _ in m)}
        if tops:
            if set(tops) == {im}:
                return T.TRUE if tops[im] > 0 else T.FALSE
            return n
        top = q.get((), 0)
        if BIG[0] is not None and abs(top) >= BIG[0]:
            # numbers of this size exceed every combination of the symbols (assumption of the caller)
            return T.TRUE if top > 0 else T.FALSE
    p = nf.poly(n)
    if p == nf.ONE:
        return T.TRUE
    if p == nf.ZERO:
        return T.FALSE
    if n.op == "pos":
        q = nf.poly(n.args[0])
        r = decide_arccos(q)
        if r is not None:
            return r
        b = nf.grouped_sign(q) if len(q) <= 60 else None
        if b is not None:
            return T.TRUE if b > 0 else T.FALSE
        b = nf.bracket(q) if len(q) <= 60 else None
        if b is not None and (b[0] > 0 or b[1] < 0):
            return T.TRUE if b[0] > 0 else T.FALSE
        if nf.A_PI.id in nf.atoms_of(q):
            # 3.14159 < pi < 3.14160
            for sub in (T.add(T.num(Fraction(314159, 100000)), T.sym("pi_above", True, True)), T.sub(T.num(Fraction(314160, 100000)), T.sym("pi_below", True, True))):
                r = nf.pos_poly(nf.subst(q, nf.A_PI.id, nf.poly(sub)))
                if r == nf.ONE:
                    return T.TRUE
                if r == nf.ZERO:
                    return T.FALSE
    elif n.op == "eq0":
        q = nf.poly(n.args[0])
        if len(q) <= 60:
            qc = nf.conj_poly(q)
            for part in (nf.padd(q, qc), nf.pmul(nf.padd(q, qc, -1), {((nf.A_I.id, 1),): 1})):
                if not part:
                    continue
                if nf.is_positive(part) or nf.is_positive(nf.pneg(part)):
                    return T.FALSE
                b = nf.bracket(part)
                if b is not None and (b[0] > 0 or b[1] < 0):
                    return T.FALSE
    elif n.op in ("and", "or", "not"):
        xs = [decide(x) for x in n.args]
        r = {"and": T.band, "or": T.bor, "not": T.bnot}[n.op](*xs)
        if r.op == "b":
            return r
    return n


def decide_arccos(q):
    """c + k arccos(x)/pi > 0 by comparing x with the cosine of a constant angle"""
    from . import nf
    rest = [m for m in q if m != ()]
    if len(rest) != 1:
        return None
    c, k = Fraction(q.get((), 0)), Fraction(q[rest[0]])
    fs = [a for a, e in rest[0] if nf.ATOMS[a].kind == "fn" and nf.ATOMS[a].name == "arccos" and e == 1]
    if len(fs) != 1 or dict(rest[0]) != {fs[0]: 1, nf.A_PI.id: -1}:
        return None
    f = -c / k
    if not 0 < f < 1:
        return None
    x = nf.ATOMS[fs[0]].args[0]
    d = nf.padd(x, nf.poly(T.fn("cos", (T.mul(T.num(f), T.PI),))), -1)
    if not d:
        return T.FALSE
    b = nf.bracket(d)
    if b is None or b[0] <= 0 <= b[1]:
        return None
    return T.TRUE if (b[0] > 0) == (k < 0) else T.FALSE


def settle(n):
    """follow the branches whose conditions are settled"""
    while DECIDE[0] and n.op == "ite":
        c = decide(n.args[0])
        if c is T.TRUE:
            n = n.args[1]
        elif c is T.FALSE:
            n = n.args[2]
        else:
            break
    return n


def settled_order(l):
    """stable ascending permutation (NaN last) when all comparisons are settled, else None"""
    if not DECIDE[0]:
        return None
    l = [settle(x) for x in l]
    if any(x.isbool for x in l):
        if not all(x.isbool for x in l):
            return None
        l = [T.tonum(decide(x)) for x in l]
        if not all(x.op == "c" for x in l):
            return None
    import functools

    class Unknown(Exception):
        pass

    def cmp(i, j):
        a, b = l[i], l[j]
        if a is T.NAN or b is T.NAN:
            return (a is T.NAN) - (b is T.NAN)
        if a is b:
            return 0
        r = decide(T.lt(a, b))
        if r is T.TRUE:
            return -1
        s = decide(T.lt(b, a))
        if s is T.TRUE:
            return 1
        if r is T.FALSE and s is T.FALSE:
            return 0
        raise Unknown()
    try:
        return sorted(range(len(l)), key=functools.cmp_to_key(cmp))
    except Unknown:
        return None


def compare(op, x, y):
    x, y = A(x), A(y)
    bshape(x, y)
    if op in ("<", "<=", ">", ">=") and (x.dt == "c" or y.dt == "c"):
        event("complex-order", "ordering comparison of complex data")
        f0 = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[op]
        return like(emap(lambda a, b: T.fn("bopaque", (a, b), data="complex-" + f0), x.a, y.a), x, y, dt="b")
    i = x.dt in "bi" and y.dt in "bi"

    def one(a, b):
        if a.isbool and b.isbool:
            e = T.bor(T.band(a, b), T.band(T.bnot(a), T.bnot(b)))
            if op == "==":
                return e
            if op == "!=":
                return T.bnot(e)
        if a.isbool and b.op == "c" and op in ("==", "!="):
            v = b.data
            r = a if v == (1, 0) else (T.bnot(a) if v == (0, 0) else T.FALSE)
            return r if op == "==" else T.bnot(r)
        if b.isbool and a.op == "c" and op in ("==", "!="):
            return one(b, a)
        a, b = T.tonum(a), T.tonum(b)
        if i and (a.op == "ite" or b.op == "ite"):
            if a.op == "ite" and leaves_const(a):
                return lift(lambda t: one(t, b), a)
            if b.op == "ite" and leaves_const(b):
                return lift(lambda t: one(a, t), b)
        if op == "==":
            return T.eq(a, b)
        if op == "!=":
            return T.bnot(T.eq(a, b))
        if a is T.NAN or b is T.NAN:
            return T.FALSE
        return {"<": T.lt, "<=": T.le, ">": T.gt, ">=": T.ge}[op](a, b)
    if DECIDE[0]:
        return like(emap(lambda a, b: decide(one(a, b)), x.a, y.a), x, y, dt="b")
    if (x.isnp or y.isnp) and not x.traced and not y.traced and max(x.size, y.size) <= 64:
        return like(emap(lambda a, b: fold(op, one(a, b), a, b), x.a, y.a), x, y, dt="b")
    return like(emap(one, x.a, y.a), x, y, dt="b")


def fold(op, r, a, b):
    """host-side comparison of constant expressions"""
    if r.op == "b" or a.isbool or b.isbool:
        return r
    from . import nf
    try:
        d = nf.padd(nf.poly(T.tonum(a)), nf.poly(T.tonum(b)), -1)
    except nf.Budget:
        return r
    if any(m not in ((), ((0, 1),)) for m in d):
        return r
    if op in ("==", "!="):
        return T.bconst((not d) == (op == "=="))
    if ((0, 1),) in d:
        return r
    c = d.get((), 0)
    return T.bconst({"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op])


def neg(x):
    if isinstance(x, int):
        return -x
    x = A(x)
    if x.dt == "b":
        raise PyRaise("TypeError", "negative of boolean")
    if x.dt == "i":
        return like(emap(lambda a: ib("*", a, T.MONE), x.a), x)
    return like(emap(T.neg, x.a), x)


def invert(x):
    if isinstance(x, bool):
        return ~int(x)
    if isinstance(x, int):
        return ~x
    x = A(x)
    if x.dt != "b":
        if x.dt == "i":
            return like(emap(lambda a: T.sub(T.MONE, a), x.a), x)
        raise PyRaise("TypeError", "bitwise not of floating data")
    return like(emap(T.bnot, x.a), x)


def um(f, x, dt=None, atleast=None):
    x = A(x)
    return like(emap(f, x.a), x, dt=dt or kindmax(x.dt, atleast or "b"))


def real(x):
    x = A(x)
    return um(T.re, x, "f" if x.dt == "c" else x.dt)


def imag(x):
    x = A(x)
    return um(T.im, x, "f" if x.dt in "fc" else x.dt)


def conj(x):
    return um(T.conj, x)


def aabs(x):
    if isinstance(x, int):
        return abs(x)
    x = A(x)
    return um(T.absv, x, "f" if x.dt == "c" else ("i" if x.dt == "b" else x.dt))


def sqrt(x):
    return um(T.sqrt, x, None, "f")


def exp_node(n):
    n = T.tonum(n)
    if n.op == "fn" and n.data[0] == "log":
        return n.args[0]
    return T.exp(n)


def log_node(n):
    n = T.tonum(n)
    if n is T.ONE:
        return T.ZERO
    if n.op == "fn" and n.data[0] == "exp" and n.isreal:
        return n.args[0]
    return T.fn("log", (n,))


def fnode(name, real=None, data=None):
    def f(*ns):
        ns = [T.tonum(n) for n in ns]
        if name in ("sin", "tan", "arcsinh", "sinh", "tanh", "arctan", "arcsin", "log1p", "expm1") and ns[0] is T.ZERO:
            return T.ZERO
        if name in ("cos", "cosh") and ns[0] is T.ZERO:
            return T.ONE
        if name == "log1p":
            return log_node(T.add(T.ONE, ns[0]))
        if name == "expm1":
            return T.sub(exp_node(ns[0]), T.ONE)
        return T.fn(name, ns, data=data, real=real)
    return f


def elementwise(name, dt=None, real=None):
    f = fnode(name, real)

    def g(x):
        return um(f, x, dt, "f")
    return g


def sign_node(n):
    v = T.cval(n)
    if v is not None:
        return T.num((v > 0) - (v < 0))
    return T.sub(T.ite(T.pos(n), T.ONE, T.ZERO), T.ite(T.pos(T.neg(n)), T.ONE, T.ZERO))


def floor_node(n):
    v = T.cval(n)
    if v is not None:
        return T.num(v.__floor__())
    if DECIDE[0]:
        k = settled_floor(n)
        if k is not None:
            return T.num(k)
    return T.fn("floor", (n,), real=True)


def max_nodes(ns):
    if DECIDE[0]:
        ns = [settle(T.tonum(n)) for n in ns]
        if any(n is T.NAN for n in ns):
            return T.NAN
        o = settled_order(ns)
        if o is not None:
            return ns[o[-1]]
    out = {}
    const = None
    stack_ = list(ns)
    while stack_:
        n = T.tonum(stack_.pop())
        if n.op == "fn" and n.data[0] == "max":
            stack_.extend(n.args)
            continue
        v = T.cval(n)
        if v is not None:
            const = v if const is None else max(const, v)
        else:
            out[n.id] = n
    xs = [out[k] for k in sorted(out)]
    if const is not None:
        xs.append(T.num(const))
    if len(xs) == 1:
        return xs[0]
    f, ys = T.pull(xs)
    if f is not T.ONE:
        return T.mul(f, max_nodes(ys))
    return T.fn("max", xs, real=True)


def min_nodes(ns):
    if DECIDE[0]:
        ns = [settle(T.tonum(n)) for n in ns]
        if any(n is T.NAN for n in ns):
            return T.NAN
        o = settled_order(ns)
        if o is not None:
            return ns[o[0]]
    out = {}
    const = None
    stack_ = list(ns)
    while stack_:
        n = T.tonum(stack_.pop())
        if n.op == "fn" and n.data[0] == "min":
            stack_.extend(n.args)
            continue
        v = T.cval(n)
        if v is not None:
            const = v if const is None else min(const, v)
        else:
            out[n.id] = n
    xs = [out[k] for k in sorted(out)]
    if const is not None:
        xs.append(T.num(const))
    if len(xs) == 1:
        return xs[0]
    f, ys = T.pull(xs)
    if f is not T.ONE:
        return T.mul(f, min_nodes(ys))
    return T.fn("min", xs, real=True)


def maximum(x, y):
    x, y = A(x), A(y)
    bshape(x, y)
    return like(emap(lambda a, b: max_nodes([a, b]), x.a, y.a), x, y, dt=kindmax(x.dt, y.dt))


def minimum(x, y):
    x, y = A(x), A(y)
    bshape(x, y)
    return like(emap(lambda a, b: min_nodes([a, b]), x.a, y.a), x, y, dt=kindmax(x.dt, y.dt))


def clip(x, lo=None, hi=None, **kw):
    lo = kw.get("a_min", kw.get("min", lo))
    hi = kw.get("a_max", kw.get("max", hi))
    r = A(x)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def where(c, x=None, y=None):
    if x is None:
        c = A(c)
        if all(n.op == "b" for n in c.a.flat) and not c.traced:
            hit = np.argwhere(np.array([n.data for n in c.a.flat], dtype=bool).reshape(c.shape))
            out = []
            for k in range(c.ndim):
                col = np.empty(len(hit), dtype=object)
                for j in range(len(hit)):
                    col[j] = T.num(int(hit[j][k]))
                out.append(Arr(col, "i", False, False, c.isnp))
            return tuple(out)
        if c.traced:
            raise TraceError("ConcretizationTypeError", "positions of true values of runtime data")
        raise Unsupported("where with one argument")
    c, x, y = A(c), A(x), A(y)
    bshape(c, x, y)
    return like(emap(lambda p, a, b: T.ite(p, a, b), c.a, x.a, y.a), c, x, y, dt=kindmax(x.dt, y.dt)) if True else None


def whereT(c, x, y):
    r = where(c, x, y)
    x, y = A(x), A(y)
    r.weak = x.weak and y.weak and A(c).weak
    return r


def axis_norm(x, axis):
    if axis is None:
        return None
    if isinstance(axis, (tuple, list)):
        return tuple(a % x.ndim for a in axis)
    if isinstance(axis, Arr):
        axis = concrete_int(axis)
    if not -x.ndim <= axis < x.ndim:
        raise PyRaise("ValueError", "axis %d out of range for ndim %d" % (axis, x.ndim))
    return axis % x.ndim


def reduce_(x, axis, f, dt=None, keepdims=False):
    x = A(x)
    ax = axis_norm(x, axis)
    if ax is None:
        r = wrap(f(list(x.a.flat)))
        if keepdims:
            r = r.reshape((1,) * x.ndim)
    else:
        axs = ax if isinstance(ax, tuple) else (ax,)
        m = np.moveaxis(x.a, axs, range(x.ndim - len(axs), x.ndim))
        sh = m.shape[:x.ndim - len(axs)]
        m = m.reshape(sh + (-1,))
        r = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            r[i] = f(list(m[i]))
        if keepdims:
            for a in sorted(axs):
                r = np.expand_dims(r, a)
    o = like(r, x, dt=dt or x.dt)
    o.weak = False
    o.mask = None
    return o


def asum(x, axis=None, keepdims=False, **kw):
    x = A(x)
    if kw.get("where") is not None:
        x = where(kw["where"], x, 0)
    return reduce_(x, axis, lambda l: T.add(*l) if l else T.ZERO, "i" if x.dt == "b" else x.dt, keepdims)


def aprod(x, axis=None, keepdims=False, **kw):
    return reduce_(x, axis, lambda l: T.mul(*l) if l else T.ONE, None, keepdims)


def amean(x, axis=None, keepdims=False, **kw):
    x = A(x)
    s = asum(x, axis, keepdims)
    n = x.size // max(1, s.size)
    return binop("/", s, n)


def aall(x, axis=None, keepdims=False, **kw):
    return reduce_(x, axis, lambda l: T.band(*l), "b", keepdims)


def aany(x, axis=None, keepdims=False, **kw):
    return reduce_(x, axis, lambda l: T.bor(*l), "b", keepdims)


def amax(x, axis=None, keepdims=False, **kw):
    ini = kw.get("initial")
    ext = [] if ini is None else [A(ini).item()]
    if kw.get("where") is not None:
        x = where(kw["where"], x, ini)
    return reduce_(x, axis, lambda l: max_nodes(l + ext), None, keepdims)


def amin(x, axis=None, keepdims=False, **kw):
    ini = kw.get("initial")
    ext = [] if ini is None else [A(ini).item()]
    if kw.get("where") is not None:
        x = where(kw["where"], x, ini)
    return reduce_(x, axis, lambda l: min_nodes(l + ext), None, keepdims)


def argmax_nodes(l):
    if DECIDE[0] and not any(settle(x) is T.NAN for x in l):
        o = settled_order([T.neg(T.tonum(decide(x))) for x in l])
        if o is not None:
            return T.num(o[0])
    if all(n.op in ("c", "b") for n in l):
        vs = [T.cval(n) for n in l]
        return T.num(vs.index(max(vs)))
    if all(n.isbool for n in l):
        r = T.ZERO
        for k in range(len(l) - 1, -1, -1):
            r = T.ite(l[k], T.num(k), r)
        return r
    if len(l) == 1:
        return T.ZERO
    if len(l) == 2:
        return T.ite(T.gt(l[1], l[0]), T.ONE, T.ZERO)
    return T.fn("argmax", l, real=True)


def argmax(x, axis=None, keepdims=False, **kw):
    return reduce_(x, axis, argmax_nodes, "i", keepdims)


def argmin(x, axis=None, keepdims=False, **kw):
    x = A(x)
    y = invert(x) if x.dt == "b" else neg(x)
    return reduce_(y, axis, argmax_nodes, "i", keepdims)


def sort_nodes(l):
    o = settled_order(l)
    if o is not None:
        return [settle(l[i]) for i in o]
    if all(T.cval(n) is not None for n in l):
        return [T.num(v) for v in sorted(T.cval(n) for n in l)]
    if len(l) == 1:
        return l
    if len(l) == 2:
        return [min_nodes(l), max_nodes(l)]
    return [T.fn("sort", sorted(l, key=lambda n: n.id), data=k, real=True) for k in range(len(l))]


def kth_true(bs, fill):
    """index of the k-th true entry as decision trees, k = 0.."""
    n = len(bs)
    memo = {}

    def f(i, k):
        if i == n:
            return fill
        r = memo.get((i, k))
        if r is None:
            r = T.ite(bs[i], T.num(i) if k == 0 else f(i + 1, k - 1), f(i + 1, k))
            memo[(i, k)] = r
        return r
    return f


def argsort_nodes(l):
    n = len(l)
    o = settled_order(l)
    if o is not None:
        return [T.num(i) for i in o]
    if all(T.cval(x) is not None for x in l):
        v = [T.cval(x) for x in l]
        return [T.num(i) for i in sorted(range(n), key=lambda i: v[i])]
    if all(x.isbool for x in l) and n <= 8:
        # stable: false entries first
        seq = [T.bnot(x) for x in l]
        ft = kth_true(seq, None)

        def kth(i, k):
            # k-th in order: false entries, then true ones
            memo = {}

            def g(j, nf, kk):
                # decide with all values known is needed: count falses first
                raise NotImplementedError
        out = []
        # enumerate by decision tree over entries, sharing by (i, tuple of falses)
        memo = {}

        def rec(i, fs, ts):
            if i == n:
                return [T.num(j) for j in fs + ts]
            key = (i, fs, ts)
            if key not in memo:
                a = rec(i + 1, fs, ts + (i,))
                b = rec(i + 1, fs + (i,), ts)
                memo[key] = [T.ite(l[i], p, q) for p, q in zip(a, b)]
            return memo[key]
        return rec(0, (), ())
    if n == 1:
        return [T.ZERO]
    if n == 2:
        c = T.lt(l[1], l[0])
        return [T.ite(c, T.ONE, T.ZERO), T.ite(c, T.ZERO, T.ONE)]
    return [T.fn("argsort", l, data=k, real=True) for k in range(n)]


def along(x, axis, f, dt=None):
    x = A(x)
    if x.ndim == 0:
        return x
    if axis is None:
        m = x.a.reshape(-1)
        return like(np.array(f(list(m)) + [None], dtype=object)[:-1], x, dt=dt or x.dt)
    ax = axis_norm(x, axis)
    m = np.moveaxis(x.a, ax, -1)
    out = []
    sh = m.shape[:-1]
    res = None
    for i in np.ndindex(*sh):
        v = f(list(m[i]))
        if res is None:
            res = np.empty(sh + (len(v),), dtype=object)
        res[i] = np.array(v + [None], dtype=object)[:-1]
    if res is None:
        res = m
    r = like(np.moveaxis(res, -1, ax), x, dt=dt or x.dt)
    r.weak = False
    return r


def sort(x, axis=-1, **kw):
    r = along(x, axis, sort_nodes)
    if kw.get("descending") is True:
        r = flip(r, axis)
    return r


def argsort(x, axis=-1, **kw):
    x = A(x)
    if kw.get("descending") is True:
        if x.dt == "b":
            x = invert(x)
        else:
            x = neg(x)
    return along(x, axis, argsort_nodes, "i")


def cumsum(x, axis=None, **kw):
    x = A(x)

    def f(l):
        out, s = [], T.ZERO
        for n in l:
            s = T.add(s, n)
            out.append(s)
        return out
    return along(x, axis, f, "i" if x.dt == "b" else x.dt)


def cumprod(x, axis=None, **kw):
    def f(l):
        out, s = [], T.ONE
        for n in l:
            s = T.mul(s, n)
            out.append(s)
        return out
    return along(x, axis, f)


def diff(x, n=1, axis=-1, **kw):
    for _ in range(n):
        x = along(x, axis, lambda l: [T.sub(b, a) for a, b in zip(l, l[1:])])
    return x


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = A(y)
    if x is None:
        d = lit(1) if False else A(dx)
        dd = broadcast_to(d, (y.shape[axis] - 1,))
    else:
        dd = diff(A(x), axis=-1)
    ym = moveaxis(y, axis, -1)
    s = binop("+", getitem(ym, (Ellipsis, slice(1, None))), getitem(ym, (Ellipsis, slice(None, -1))))
    return asum(binop("*", binop("/", s, 2), dd), axis=-1)


def flip(x, axis=None):
    x = A(x)
    if axis is None:
        return like(np.flip(x.a), x)
    return like(np.flip(x.a, axis_norm(x, axis)), x)


def moveaxis(x, a, b):
    x = A(x)
    try:
        return like(np.moveaxis(x.a, a, b), x)
    except Exception as e:
        raise PyRaise("ValueError", str(e))


def transpose(x, axes=None):
    x = A(x)
    return like(np.transpose(x.a, axes), x)


def swapaxes(x, a, b):
    x = A(x)
    return like(np.swapaxes(x.a, a, b), x)


def expand_dims(x, axis):
    x = A(x)
    return like(np.expand_dims(x.a, axis), x)


def squeeze(x, axis=None):
    x = A(x)
    return like(wrap(np.squeeze(x.a, axis)), x)


def shape_of(s):
    if isinstance(s, Arr):
        if s.ndim == 0:
            return (concrete_int(s),)
        return tuple(concrete_int(t) for t in s)
    if isinstance(s, (tuple, list)):
        return tuple(concrete_int(t) for t in s)
    return (concrete_int(s),)


def reshape(x, *s, order="C", **kw):
    x = A(x)
    if "shape" in kw:
        s = (kw["shape"],)
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    s = shape_of(tuple(s))
    try:
        return like(x.a.reshape(s), x)
    except ValueError as e:
        raise PyRaise("TypeError", str(e))


def ravel(x):
    return reshape(x, -1)


def broadcast_to(x, s):
    x = A(x)
    try:
        return like(np.broadcast_to(x.a, shape_of(s)).copy(), x)
    except ValueError as e:
        raise PyRaise("ValueError", str(e))


def atleast_1d(x):
    x = A(x)
    r = like(np.atleast_1d(x.a), x)
    r.weak = False
    return r


def atleast_2d(x):
    x = A(x)
    r = like(np.atleast_2d(x.a), x)
    r.weak = False
    return r


def tolist(xs):
    if isinstance(xs, Arr):
        return list(xs)
    return [A(x) for x in xs]


def stack(xs, axis=0, **kw):
    xs = tolist(xs)
    if not xs:
        raise PyRaise("ValueError", "need at least one array")
    sh = xs[0].shape
    for x in xs:
        if x.shape != sh:
            raise PyRaise("ValueError", "all input arrays must have the same shape")
    r = like(np.stack([x.a for x in xs], axis), *xs, dt=kindmax(*[x.dt for x in xs]))
    r.weak = False
    r.mask = None
    return r


def concatenate(xs, axis=0, **kw):
    xs = tolist(xs)
    if any(x.mask is not None for x in xs):
        raise Unsupported("concatenate of boolean-selected data")
    try:
        r = like(np.concatenate([x.a for x in xs], axis if axis is None else axis), *xs, dt=kindmax(*[x.dt for x in xs]))
    except ValueError as e:
        raise PyRaise("TypeError", str(e))
    r.weak = False
    return r


def hstack(xs):
    xs = [atleast_1d(x) for x in tolist(xs)]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in tolist(xs)], 0)


def column_stack(xs):
    xs = tolist(xs)
    return concatenate([reshape(x, -1, 1) if x.ndim < 2 else x for x in xs], 1)


def repeat(x, n, axis=None, **kw):
    x = A(x)
    n = concrete_int(n)
    return like(np.repeat(x.a, n, axis), x)


def tile(x, reps):
    x = A(x)
    return like(np.tile(x.a, shape_of(reps)), x)


def roll_list(l, s):
    n = len(l)
    v = T.cval(s)
    if v is not None:
        k = int(v) % n
        return l[-k:] + l[:-k] if k else list(l)
    if s.op == "ite":
        a, b = roll_list(l, s.args[1]), roll_list(l, s.args[2])
        return [T.ite(s.args[0], p, q) for p, q in zip(a, b)]
    return [take_node(l, mod_node(T.sub(T.num(k), s), T.num(n))) for k in range(n)]


def roll(x, shift, axis=None):
    x = A(x)
    s = A(shift).item()
    if axis is None:
        sh = x.shape
        return reshape(along(x, None, lambda l: roll_list(l, s)), sh)
    return along(x, axis, lambda l: roll_list(l, s))


def pad(x, pw, mode="constant", constant_values=0, **kw):
    x = A(x)
    if mode != "constant":
        raise Unsupported("pad mode %s" % mode)
    if isinstance(pw, int):
        pw = [(pw, pw)] * x.ndim
    pw = [p if isinstance(p, (tuple, list)) else (p, p) for p in (pw if isinstance(pw, (list, tuple)) else list(pw))]
    if len(pw) == 2 and x.ndim == 1 and all(len(p) == 2 for p in pw) and pw[0][0] == pw[0][1] and isinstance(pw[0][0], int) and False:
        pass
    if x.ndim == 1 and len(pw) == 2 and all(p[0] == p[1] for p in pw):
        # pad(x, (a, b)) shorthand
        pw = [(pw[0][0], pw[1][0])]
    if len(pw) == 1 and x.ndim > 1:
        pw = list(pw) * x.ndim
    pw = [(concrete_int(a), concrete_int(b)) for a, b in pw]
    fill = T.tonum(A(constant_values).item()) if x.dt != "b" else T.tobool(A(constant_values).item())
    sh = tuple(a + n + b for n, (a, b) in zip(x.shape, pw))
    out = np.empty(sh, dtype=object)
    out[...] = fill
    out[tuple(slice(a, a + n) for n, (a, b) in zip(x.shape, pw))] = x.a
    return like(out, x)


def full(s, v, dtype=None, isnp=False):
    v = A(v)
    out = np.empty(shape_of(s), dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = v.item()
    r = Arr(out, v.dt, False, None if not isnp else False, isnp)
    r.traced = r.traced or v.traced
    return cast(r, dtype) if dtype is not None else r


def full_kind(s, k, v, isnp=False):
    out = np.empty(shape_of(s), dtype=object)
    n = {"b": T.bconst(bool(v)), "i": T.num(v), "f": T.num(v), "c": T.num(v)}[k]
    for i in np.ndindex(*out.shape):
        out[i] = n
    return Arr(out, k, False, None if not isnp else False, isnp)


def check_dtype(d):
    if d is not None and d.name in NARROW and d.kind in "fc":
        event("narrow", "array created as %s" % d.name)


def filled(v):
    def f(s, dtype=None, isnp=False, **kw):
        d = to_dt(dtype)
        check_dtype(d)
        return full_kind(s, d.kind if d else "f", v, isnp)
    return f


zeros, ones = filled(0), filled(1)


def like_filled(v):
    def f(x, dtype=None, isnp=False, **kw):
        x = A(x)
        d = to_dt(dtype)
        check_dtype(d)
        r = full_kind(kw.get("shape") or x.shape, d.kind if d else x.dt, v, isnp)
        r.traced = r.traced or x.traced
        return r
    return f


zeros_like, ones_like = like_filled(0), like_filled(1)


def full_like(x, v, dtype=None, isnp=False, **kw):
    x = A(x)
    return cast(full(x.shape, v, None, isnp), dtype or DT(x.dt))


def eye(n, m=None, dtype=None, isnp=False, **kw):
    r = full_kind((n, m or n), "f", 0, isnp)
    for i in range(min(n, m or n)):
        r.a[i, i] = T.ONE
    return r


def arange(a, b=None, step=1, dtype=None, isnp=False):
    if b is None:
        a, b = 0, a
    vals = [concrete_num(t) for t in (a, b, step)]
    fl = any(isinstance(A(t), Arr) and A(t).dt == "f" for t in (a, b, step))
    out = []
    v = vals[0]
    while (v < vals[1]) if vals[2] > 0 else (v > vals[1]):
        out.append(T.num(v))
        v += vals[2]
        if len(out) > 5000:
            raise Unsupported("arange too long")
    arr = np.empty((len(out),), dtype=object)
    for i, n in enumerate(out):
        arr[i] = n
    r = Arr(arr, "f" if fl else "i", False, None if not isnp else False, isnp)
    return cast(r, dtype) if dtype is not None else r


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, isnp=False, **kw):
    n = concrete_int(num)
    a, b = A(a), A(b)
    den = (n - 1) if endpoint else n
    x, y = a.item(), b.item()
    x, y = T.tonum(x), T.tonum(y)
    out = np.empty((n,), dtype=object)
    for k in range(n):
        t = Fraction(k, den) if den else Fraction(0)
        out[k] = T.add(T.mul(T.num(1 - t), x), T.mul(T.num(t), y))
    r = like(out, a, b, dt=kindmax(a.dt, b.dt, "f"))
    r.weak = False
    r.isnp = isnp
    if retstep:
        return r, like(T.mul(T.num(Fraction(1, den)), T.sub(y, x)), a, b, dt=r.dt)
    if dtype is not None:
        return cast(r, dtype)
    return r


def logspace(a, b, num=50, endpoint=True, base=10.0, isnp=False, **kw):
    e = linspace(a, b, num, endpoint, isnp=isnp)
    base = A(base)
    return binop("**", base, e)


def meshgrid(*xs, indexing="xy", **kw):
    xs = [A(x) for x in xs]
    g = np.meshgrid(*[np.arange(x.size) for x in xs], indexing=indexing)
    return [like(x.a.reshape(-1)[i], x) for x, i in zip(xs, g)]


def polyval(p, x, **kw):
    p, x = A(p), A(x)
    if p.ndim == 1:
        r = full_kind(x.shape, kindmax(p.dt, x.dt), 0)
        r = binop("*", x, 0)
        for i in range(p.shape[0]):
            c = like(wrap(p.a[i]), p)
            r = c if i == 0 else binop("+", binop("*", r, x), c)
        if p.shape[0]:
            return broadcast_to(r, np.broadcast_shapes(r.shape, x.shape))
        return r
    r = None
    for i in range(p.shape[0]):
        c = like(p.a[i], p)
        r = c if r is None else binop("+", binop("*", r, x), c)
    return r


def dot(x, y, **kw):
    x, y = A(x), A(y)
    if x.ndim == 0 or y.ndim == 0:
        return binop("*", x, y)
    if y.ndim == 1:
        return asum(binop("*", x, y), axis=-1)
    if x.shape[-1] != y.shape[-2]:
        raise PyRaise("TypeError", "dot shapes %s %s" % (x.shape, y.shape))
    out_sh = x.shape[:-1] + y.shape[:-2] + y.shape[-1:]
    out = np.empty(out_sh, dtype=object)
    ym = np.moveaxis(y.a, -2, 0)
    for i in np.ndindex(*x.shape[:-1]):
        for j in np.ndindex(*ym.shape[1:]):
            out[i + j] = T.add(*[T.mul(p, ym[(k,) + j]) for k, p in enumerate(x.a[i])])
    r = like(out, x, y, dt=kindmax(x.dt, y.dt))
    r.mask = None
    return r


def matmul(x, y, **kw):
    x, y = A(x), A(y)
    if x.ndim == 0 or y.ndim == 0:
        raise PyRaise("TypeError", "matmul of scalar")
    if x.ndim <= 2 and y.ndim <= 2:
        if x.shape[-1] != y.shape[-2 if y.ndim == 2 else 0]:
            raise PyRaise("TypeError", "matmul shapes %s %s" % (x.shape, y.shape))
        return dot(x, y)
    raise Unsupported("batched matmul")


def vdot(x, y):
    return asum(binop("*", conj(ravel(x)), ravel(y)))


def outer(x, y):
    return binop("*", reshape(x, -1, 1), reshape(y, 1, -1))


def cross(x, y, **kw):
    x, y = A(x), A(y)
    if x.shape != (3,) or y.shape != (3,):
        raise Unsupported("cross of shapes %s %s" % (x.shape, y.shape))
    a, b = x.a, y.a
    out = [T.sub(T.mul(a[(i + 1) % 3], b[(i + 2) % 3]), T.mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]
    return like(np.array(out, dtype=object), x, y, dt=kindmax(x.dt, y.dt))


def norm(x, ord=None, axis=None, **kw):
    return sqrt(asum(binop("**", aabs(x), 2), axis=axis))


def trace(x, **kw):
    x = A(x)
    return like(T.add(*[x.a[i, i] for i in range(x.shape[0])]), x)


def diag(x, **kw):
    x = A(x)
    n = x.shape[0]
    if x.ndim == 2:
        return like(np.array([x.a[i, i] for i in range(n)] + [None], dtype=object)[:-1], x)
    out = np.empty((n, n), dtype=object)
    out[...] = T.ZERO
    for i in range(n):
        out[i, i] = x.a[i]
    return like(out, x)


def typed(dt, shape, *xs):
    """type-level interpretation: an arbitrary array of this type"""
    return like(TYPES_ONLY[0](dt, shape).a, *xs, dt=dt)


def square(x):
    if x.ndim < 2 or x.shape[-1] != x.shape[-2]:
        raise TraceError("ValueError", "linear algebra on an array of shape %s" % (x.shape,))


def det_nodes(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n > 4:
        raise Unsupported("determinant of size %d" % n)
    ts = []
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        ts.append(T.mul(T.num((-1) ** j), m[0][j], det_nodes(minor)))
    return T.add(*ts)


def rows(x):
    return [list(r) for r in x.a]


def det(x):
    x = A(x)
    square(x)
    if TYPES_ONLY[0]:
        return typed(kindmax(x.dt, "f"), x.shape[:-2], x)
    return like(det_nodes(rows(x)), x)


def inv(x):
    x = A(x)
    square(x)
    if TYPES_ONLY[0]:
        return typed(kindmax(x.dt, "f"), x.shape, x)
    n = x.shape[0]
    m = rows(x)
    d = det_nodes(m)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]
            c = det_nodes(minor) if n > 1 else T.ONE
            out[i, j] = T.div(T.mul(T.num((-1) ** (i + j)), c), d)
    return like(out, x, dt=kindmax(x.dt, "f"))


def solve(a, b, **kw):
    return matmul(inv(a), b)


def slogdet(x):
    x = A(x)
    square(x)
    if TYPES_ONLY[0]:
        return typed(kindmax(x.dt, "f"), x.shape[:-2], x), typed("f", x.shape[:-2], x)
    d = det_nodes(rows(x))
    return (like(sign_node(d) if d.isreal else T.div(d, T.absv(d)), x), like(log_node(T.absv(d)), x, dt="f"))


def cholesky(x, lower=True, **kw):
    x = A(x)
    square(x)
    if TYPES_ONLY[0]:
        return typed(kindmax(x.dt, "f"), x.shape, x)
    n = x.shape[0]
    L = np.empty((n, n), dtype=object)
    L[...] = T.ZERO
    for i in range(n):
        for j in range(i + 1):
            s = T.sub(x.a[i, j], T.add(*[T.mul(L[i, k], L[j, k]) for k in range(j)]) if j else T.ZERO)
            L[i, j] = T.sqrt(s) if i == j else T.div(s, L[j, j])
    r = like(L, x)
    return r if lower else like(L.T, x)


def solve_triangular(a, b, **kw):
    return solve(a, b)


def cho_factor(x, lower=False, **kw):
    return (A(x), lower)


def cho_solve(c, b, **kw):
    return solve(c[0], b)


def isclose(a, b, rtol=None, atol=None, **kw):
    rtol = lit(Fraction(1, 10 ** 5)) if rtol is None else rtol
    atol = lit(Fraction(1, 10 ** 8)) if atol is None else atol
    return compare("<=", aabs(binop("-", a, b)), binop("+", atol, binop("*", rtol, aabs(b))))


def interp(x, xp, fp, left=None, right=None, **kw):
    x, xp, fp = A(x), A(xp), A(fp)
    if xp.ndim != 1 or xp.shape != fp.shape:
        raise TraceError("ValueError", "interp tables have shapes %s and %s" % (xp.shape, fp.shape))
    if TYPES_ONLY[0]:
        return typed(fp.dt if fp.dt in "fc" else "f", x.shape, x, xp, fp)
    if any(t.mask is not None for t in (xp, fp)):
        raise Unsupported("interp of boolean-selected tables")
    n = xp.size
    l = fp.a[0] if left is None else A(left).item()
    r = fp.a[-1] if right is None else A(right).item()
    args = list(xp.a) + list(fp.a) + [l, r]
    rl = all(t.isreal for t in args)
    return like(emap(lambda t: T.fn("interp", [t] + args, data=n, real=rl), x.a), x, xp, fp, dt=fp.dt if fp.dt in "fc" else "f")


def digitize(x, bins, right=False, **kw):
    x, bins = A(x), A(bins)
    if TYPES_ONLY[0]:
        return typed("i", x.shape, x, bins)
    op = T.gt if right else T.ge
    return like(emap(lambda t: T.add(*[T.ite(decide(op(t, b)), T.ONE, T.ZERO) for b in bins.a]), x.a), x, bins, dt="i")


def searchsorted(a, v, side="left", **kw):
    a, v = A(a), A(v)
    if TYPES_ONLY[0]:
        return typed("i", v.shape, v, a)
    op = T.gt if side == "left" else T.ge
    return like(emap(lambda t: T.add(*[T.ite(decide(op(t, b)), T.ONE, T.ZERO) for b in a.a]), v.a), v, a, dt="i")


def bincount(x, weights=None, minlength=0, length=None, **kw):
    x = A(x)
    n = concrete_int(length if length is not None else minlength)
    w = None if weights is None else A(weights)
    out = []
    for k in range(n):
        ts = []
        for i, t in enumerate(x.a):
            h = T.ite(int_eq(t, T.num(k)) if k else T.le(t, T.ZERO), T.ONE, T.ZERO)
            ts.append(h if w is None else T.mul(h, w.a[i]))
        out.append(T.add(*ts))
    arr = np.empty((n,), dtype=object)
    arr[:] = out
    return like(arr, x, dt="i" if w is None else w.dt)


def argwhere(m, size=None, fill_value=0, **kw):
    m = A(m)
    if m.ndim != 1:
        raise Unsupported("argwhere of nd array")
    if size is None:
        if m.traced:
            raise TraceError("NonConcreteBooleanIndexError", "argwhere without size on traced data")
        raise Unsupported("argwhere without size")
    n = concrete_int(size)
    bs = [T.tobool(x) for x in m.a]
    f = kth_true(bs, A(fill_value if fill_value is not None else 0).item())
    out = np.empty((n, 1), dtype=object)
    for k in range(n):
        out[k, 0] = f(0, k)
    return like(out, m, dt="i")


def nonzero(m, size=None, fill_value=0, **kw):
    return (getitem(argwhere(m, size, fill_value), (slice(None), 0)),)


def isin(x, y, invert=False, **kw):
    x, y = A(x), A(y)
    ys = list(y.a.flat)
    r = like(emap(lambda t: T.bor(*[int_eq(t, b) for b in ys]), x.a), x, y, dt="b")
    return invert_(r) if invert else r


def invert_(x):
    return invert(x)


def unique(x, size=None, fill_value=None, **kw):
    x = A(x)
    if size is None:
        if x.traced:
            raise TraceError("ConcretizationTypeError", "unique without size on traced data")
        raise Unsupported("unique without size")
    if kw.get("return_index") or kw.get("return_counts") or kw.get("return_inverse"):
        if kw.get("return_inverse") or kw.get("return_counts") or not TYPES_ONLY[0]:
            raise Unsupported("unique with extra outputs")
        n = concrete_int(size)
        return TYPES_ONLY[0](x.dt, (n,)), TYPES_ONLY[0]("i", (n,))
    n = concrete_int(size)
    f = [] if fill_value is None else [A(fill_value).item()]
    args = sorted(x.a.flat, key=lambda t: t.id)
    out = np.empty((n,), dtype=object)
    for k in range(n):
        out[k] = T.fn("unique", list(args) + f, data=(k, len(f)), real=all(t.isreal for t in args))
    return like(out, x)


def append(x, vals, axis=None):
    x, vals = A(x), A(vals)
    if axis is None:
        return concatenate([reshape(x, -1), reshape(vals, -1)])
    return concatenate([x, vals], axis=axis)


def insert(x, idx, vals, axis=None, **kw):
    x, idx, vals = A(x), A(idx), A(vals)
    if x.ndim != 1:
        if axis is None:
            raise Unsupported("insert into nd array")
        ax = concrete_int(axis) % x.ndim
        if vals.ndim != x.ndim or any(v != w for k, (v, w) in enumerate(zip(vals.shape, x.shape)) if k != ax):
            raise Unsupported("insert into nd array")
        X, Vv = np.moveaxis(x.a, ax, -1), np.moveaxis(vals.a, ax, -1)
        rows = [insert(like(X[i], x), idx, like(Vv[i], vals)).a for i in np.ndindex(*X.shape[:-1])]
        out = np.empty(X.shape[:-1] + (len(rows[0]) if rows else 0,), dtype=object)
        for i, r in zip(np.ndindex(*X.shape[:-1]), rows):
            out[i] = r
        return like(np.moveaxis(out, -1, ax), x, vals, dt=kindmax(x.dt, vals.dt))
    if idx.ndim == 0:
        idx = reshape(idx, 1)
    if vals.ndim == 0:
        vals = broadcast_to(vals, idx.shape)
    if all(T.cval(t) is not None for t in idx.a):
        pairs = sorted(enumerate(int(T.cval(t)) % (x.size + 1) for t in idx.a), key=lambda p: p[1])
        out = list(x.a)
        for n, (k, i) in enumerate(pairs):
            out.insert(i + n, vals.a[k])
        arr = np.empty((len(out),), dtype=object)
        arr[:] = out
        return like(arr, x, vals, dt=kindmax(x.dt, vals.dt))
    N = x.size + idx.size
    args = list(x.a) + list(idx.a) + list(vals.a)
    out = np.empty((N,), dtype=object)
    for k in range(N):
        out[k] = T.fn("insert", args, data=(x.size, idx.size, k), real=all(t.isreal for t in list(x.a) + list(vals.a)))
    return like(out, x, vals, dt=kindmax(x.dt, vals.dt))


def nan_reduce(base):
    def f(x, axis=None, **kw):
        x = A(x)

        def g(l):
            # entries are ite(c, nan, v) / plain
            keep, val = [], []
            for n in l:
                if n is T.NAN:
                    continue
                if n.op == "ite" and (n.args[1] is T.NAN or n.args[2] is T.NAN):
                    if n.args[1] is T.NAN:
                        keep.append(T.bnot(n.args[0]))
                        val.append(n.args[2])
                    else:
                        keep.append(n.args[0])
                        val.append(n.args[1])
                else:
                    keep.append(T.TRUE)
                    val.append(n)
            s = T.add(*[T.ite(k, v, T.ZERO) for k, v in zip(keep, val)]) if keep else T.ZERO
            c = T.add(*[T.ite(k, T.ONE, T.ZERO) for k in keep]) if keep else T.ZERO
            if base == "sum":
                return s
            if base == "mean":
                return T.div(s, c)
            return T.fn(base, [T.ite(k, v, T.NAN) for k, v in zip(keep, val)], real=True)
        return reduce_(x, axis, g)
    return f


def rfft(x, n=None, **kw):
    x = A(x)
    if n is not None:
        raise Unsupported("rfft n")
    if TYPES_ONLY[0]:
        return typed("c", x.shape[:-1] + (x.shape[-1] // 2 + 1,), x)
    N = x.size
    out = np.empty((N // 2 + 1,), dtype=object)
    for k in range(N // 2 + 1):
        out[k] = T.add(*[T.mul(v, root_of_unity(-j * k, N)) for j, v in enumerate(x.a)])
    return like(out, x, dt="c")


def irfft(x, n=None, **kw):
    x = A(x)
    N = concrete_int(n) if n is not None else 2 * (x.size - 1)
    if TYPES_ONLY[0]:
        return typed("f", x.shape[:-1] + (N,), x)
    out = np.empty((N,), dtype=object)
    for j in range(N):
        ts = []
        for k in range(x.size):
            w = T.mul(x.a[k], root_of_unity(j * k, N))
            if k == 0 or (N % 2 == 0 and k == N // 2):
                # the transform ignores the imaginary part here
                ts.append(T.mul(T.re(x.a[k]), T.num((-1) ** j if k else 1)))
            else:
                ts.append(T.mul(T.num(2), T.re(w)))
        out[j] = T.mul(T.num(Fraction(1, N)), T.add(*ts))
    return like(out, x, dt="f")


def root_of_unity(k, n):
    k %= n
    if k == 0:
        return T.ONE
    f = Fraction(k, n)
    tbl = {Fraction(1, 2): T.MONE, Fraction(1, 4): T.I, Fraction(3, 4): T.num(0, -1)}
    if f in tbl:
        return tbl[f]
    return T.exp(T.mul(T.num(0, 2 * f), T.PI))


def leggauss(n):
    n = concrete_int(n)
    if n == 1:
        x, w = [T.ZERO], [T.num(2)]
    elif n == 2:
        s = T.power(T.num(3), Fraction(-1, 2))
        x, w = [T.neg(s), s], [T.ONE, T.ONE]
    else:
        x = [T.sym("leg_x%d_%d" % (n, i)) for i in range(n)]
        w = [T.sym("leg_w%d_%d" % (n, i), pos=True) for i in range(n)]
    mk = lambda l: Arr(np.array(l + [None], dtype=object)[:-1], "f", False, False, True)
    return mk(x), mk(w)


def gammaln_node(n):
    v = T.cval(n)
    if v is not None and v.denominator == 1 and v > 0:
        return log_node(T.num(factorial(int(v) - 1)))
    return T.fn("gammaln", (n,), real=True)


def gamma_node(n):
    v = T.cval(n)
    if v is not None and v > 0:
        if v.denominator == 1:
            return T.num(factorial(int(v) - 1))
        if v.denominator == 2:
            r = T.sqrt(T.PI)
            k = Fraction(1, 2)
            c = Fraction(1)
            while k < v:
                c *= k
                k += 1
            return T.mul(T.num(c), r)
    return T.fn("gamma", (n,))


def sinc_like(name):
    return elementwise(name)


# --------------------------------------------------------------- indexing
def concrete_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Arr):
        if v.traced:
            raise TraceError("ConcretizationTypeError", "runtime data used as a size or index bound")
        if v.size == 1:
            c = T.cval(v.item())
            if c is not None:
                if c.denominator != 1:
                    raise PyRaise("TypeError", "non-integer index")
                return int(c)
        raise Unsupported("symbolic size")
    raise PyRaise("TypeError", "integer expected, got %s" % type(v).__name__)


def concrete_num(v):
    if isinstance(v, (bool, int, Fraction)):
        return Fraction(v)
    v = A(v)
    if v.traced and T.cval(v.item()) is None:
        raise TraceError("ConcretizationTypeError", "runtime data used as a size")
    c = T.cval(v.item())
    if c is None:
        raise Unsupported("symbolic bound")
    return c


def take_node(l, i):
    """l[i] for an integer node (indices clamp, negatives wrap, as in XLA gather)"""
    n = len(l)
    v = T.cval(i)
    if v is not None:
        k = int(v)
        if k < 0:
            k += n
        return l[max(0, min(n - 1, k))]
    if i.op == "ite" and leaves_const(i):
        return lift(lambda t: take_node(l, t), i)
    if i.op == "ite":
        return T.ite(i.args[0], take_node(l, i.args[1]), take_node(l, i.args[2]))
    if all(x is l[0] for x in l):
        return l[0]
    if all(x.isbool for x in l):
        return T.tobool(T.fn("take", [i] + [T.ite(x, T.ONE, T.ZERO) for x in l], real=True))
    return T.fn("take", [i] + list(l), real=all(x.isreal for x in l))


def norm_index(x, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    out = []
    for i in idx:
        if isinstance(i, list):
            i = array(i)
        if isinstance(i, np.ndarray):
            raise Unsupported("raw ndarray index")
        out.append(i)
    nb = sum(1 for i in out if i is not None and i is not Ellipsis)
    nb += sum(i.ndim - 1 for i in out if isinstance(i, Arr) and i.dt == "b" and i.ndim > 1)
    if Ellipsis in [i for i in out if not isinstance(i, Arr)]:
        k = [j for j, i in enumerate(out) if i is Ellipsis][0]
        out[k:k + 1] = [slice(None)] * (x.ndim - nb)
    else:
        out += [slice(None)] * (x.ndim - nb)
    return out


def cslice(s, n=None):
    f = lambda v: None if v is None else concrete_int(v)
    return slice(f(s.start), f(s.stop), f(s.step))


def getitem(x, idx):
    if isinstance(x, Arr) and isinstance(idx, Arr) and idx.dt == "b" and idx.shape == x.shape and x.ndim == 1:
        if all(n.op == "b" for n in idx.a) and not idx.traced:
            return like(x.a[np.array([n.data for n in idx.a], dtype=bool)], x)
        if x.traced or idx.traced:
            raise TraceError("NonConcreteBooleanIndexError", "boolean mask indexing with runtime data")
        r = like(x.a.copy(), x)
        r.mask, r.parent = tuple(idx.a), x.shape
        return r
    items = norm_index(x, idx)
    if sum(1 for i in items if i is not None) > x.ndim:
        raise PyRaise("IndexError", "too many indices")
    # split into basic and advanced
    adv = [i for i in items if isinstance(i, Arr) and not (i.ndim == 0 and i.dt == "i" and T.cval(i.item()) is not None)]
    conv = []
    for i in items:
        if isinstance(i, slice):
            conv.append(cslice(i))
        elif isinstance(i, Arr) and i.ndim == 0 and i.dt == "i" and T.cval(i.item()) is not None:
            conv.append(int(T.cval(i.item())))
        elif isinstance(i, Arr) and i.dt == "b" and i.ndim == 0:
            raise Unsupported("boolean scalar index")
        elif isinstance(i, Arr) and i.dt in "fc":
            raise PyRaise("TypeError", "floating index")
        else:
            conv.append(i)
    if not adv:
        try:
            # JAX clamps out-of-range integer gathers, NumPy raises
            cl = []
            ax = 0
            for i in conv:
                if isinstance(i, int) and not isinstance(i, bool):
                    n = x.shape[ax]
                    if not -n <= i < n:
                        if x.isnp or not isinstance(idx, Arr) and False:
                            raise PyRaise("IndexError", "index %d out of bounds" % i)
                        i = max(-n, min(n - 1, i))
                cl.append(i)
                if i is not None:
                    ax += 1
            r = like(wrap(x.a[tuple(cl)]), x)
        except IndexError as e:
            raise PyRaise("IndexError", str(e))
        return r
    # basic part first
    basic = []
    advpos = []
    ax = 0
    for i in conv:
        if isinstance(i, Arr):
            basic.append(slice(None))
        else:
            basic.append(i)
    m = x.a[tuple(basic)]
    # locate axes of advanced indices in m
    pos = 0
    axes = []
    for i in conv:
        if i is None:
            pos += 1
        elif isinstance(i, slice):
            pos += 1
        elif isinstance(i, Arr):
            axes.append((pos, i))
            pos += 1
    if any(i.dt == "b" for _, i in axes):
        if len(axes) == 1 and all(n.op == "b" for n in axes[0][1].a.flat):
            keep = [k for k, n in enumerate(axes[0][1].a.flat) if n.data]
            return like(np.take(m, keep, axis=axes[0][0]), x)
        if any(i.traced for _, i in axes):
            raise TraceError("NonConcreteBooleanIndexError", "boolean mask indexing with runtime data")
        raise Unsupported("boolean mask indexing")
    ints = [isinstance(i, int) for i in conv]
    bsh = np.broadcast_shapes(*[i.shape for _, i in axes])
    bi = [np.broadcast_to(i.a, bsh) for _, i in axes]
    ps = [p for p, _ in axes]
    contiguous = ps == list(range(ps[0], ps[0] + len(ps)))
    mm = np.moveaxis(m, ps, range(len(ps)))
    rest = mm.shape[len(ps):]
    out = np.empty(bsh + rest, dtype=object)
    for b in np.ndindex(*bsh):
        for r in np.ndindex(*rest):
            out[b + r] = take_multi(mm[(Ellipsis,) + r] if rest else mm, [i[b] for i in bi])
    if contiguous:
        out = np.moveaxis(out, range(len(bsh)), range(ps[0], ps[0] + len(bsh)))
    return like(out, x, *[i for _, i in axes])


def take_multi(m, idx):
    if len(idx) == 1:
        return take_node(list(m), idx[0])
    i = idx[0]
    v = T.cval(i)
    if v is not None:
        k = int(v)
        n = m.shape[0]
        k = k + n if k < 0 else k
        return take_multi(m[max(0, min(n - 1, k))], idx[1:])
    subs = [take_multi(m[k], idx[1:]) for k in range(m.shape[0])]
    return take_node(subs, i)


def setitem(x, idx, v, mode="set"):
    """functional update; returns a new Arr"""
    v = A(v)
    comb = {"set": lambda o, n: n, "add": T.add, "multiply": T.mul, "mul": T.mul, "subtract": T.sub,
            "divide": T.div, "max": lambda o, n: max_nodes([o, n]), "min": lambda o, n: min_nodes([o, n])}
    if mode not in comb:
        raise Unsupported("at[].%s" % mode)
    f = comb[mode]
    if x.dt in "bi" and v.dt in "fc":
        event("narrow", "floating values written into integer/boolean array")
    if x.dt == "f" and v.dt == "c":
        event("discard-imag", "complex values written into a real array")
        v = real(v)
    out = x.a.copy()
    res = lambda: like(out, x, v, dt=x.dt)
    if isinstance(idx, Arr) and idx.dt == "b" and idx.shape == x.shape:
        vv = v.a if v.shape == x.shape and v.mask is not None else np.broadcast_to(v.a, x.shape) if v.ndim == 0 else None
        if vv is None and v.mask is None and v.ndim == 1 and all(n.op == "b" for n in idx.a.flat):
            keep = [k for k, n in enumerate(idx.a.flat) if n.data]
            if v.shape[0] not in (1, len(keep)):
                raise PyRaise("ValueError", "%d values assigned to %d selected elements" % (v.shape[0], len(keep)))
            flat = out.reshape(-1)
            for j, k in enumerate(keep):
                t = f(flat[k], v.a[j if v.shape[0] > 1 else 0])
                flat[k] = T.tobool(t) if x.dt == "b" else t
            return like(flat.reshape(out.shape), x, dt=x.dt)
        if vv is None and TYPES_ONLY[0]:
            return typed(x.dt, x.shape, x)
        if vv is None:
            raise Unsupported("boolean assignment of unmatched data")
        if v.mask is not None and tuple(v.mask) != tuple(idx.a):
            raise Unsupported("boolean assignment under a different mask")
        out = emap(lambda c, n, o: T.ite(c, f(o, n), o), idx.a, vv, x.a)
        return like(out, x, dt=x.dt)
    items = norm_index(x, idx)
    conv = []
    symb = []
    for p, i in enumerate(items):
        if isinstance(i, slice):
            conv.append(cslice(i))
        elif isinstance(i, Arr) and i.dt == "i" and all(T.cval(t) is not None for t in i.a.flat):
            if i.ndim == 0:
                conv.append(int(T.cval(i.item())))
            else:
                conv.append(np.array([int(T.cval(t)) for t in i.a.flat], dtype=int).reshape(i.shape))
        elif isinstance(i, Arr) and i.dt == "i":
            symb.append(p)
            conv.append(i)
        elif isinstance(i, Arr) and i.dt == "b":
            if i.ndim == 1 and all(n.op == "b" for n in i.a):
                conv.append(np.array([n.data for n in i.a], dtype=bool))
            elif i.ndim == 1:
                symb.append(p)
                conv.append(i)
            else:
                raise Unsupported("boolean update")
        else:
            conv.append(i)
    if not symb:
        try:
            tgt = out[tuple(conv)]
        except IndexError as e:
            if x.isnp:
                raise PyRaise("IndexError", str(e))
            return like(out, x)        # out-of-range scatter is dropped
        tshape = np.shape(tgt) if isinstance(tgt, np.ndarray) else ()
        try:
            vb = np.broadcast_to(v.a, tshape)
        except ValueError as e:
            raise PyRaise("ValueError", str(e))
        new = emap(f, wrap(tgt), vb)
        if x.dt == "b":
            new = emap(T.tobool, new)
        out[tuple(conv)] = new if tshape else new[()]
        return res()
    if len(symb) != 1 or any(isinstance(c, np.ndarray) for c in conv):
        return _scatter(x, conv, symb, v, f, out, res)
    p = symb[0]
    i = conv[p]
    n = x.shape[p]
    if i.dt == "b":
        for k in range(n):
            sel = list(conv)
            sel[p] = k
            tgt = wrap(out[tuple(sel)])
            if v.ndim and v.shape[:1] == (n,) and False:
                vk = v.a[k]
            else:
                vk = v.a
            new = emap(lambda o, w: T.ite(i.a[k], f(o, w), o), tgt, np.broadcast_to(wrap(vk), tgt.shape))
            out[tuple(sel)] = new if new.ndim else new[()]
        return res()
    js = list(np.ndindex(*i.shape)) if i.ndim else [()]
    for j in js:
        ij = i.a[j]
        for k in range(n):
            sel = list(conv)
            sel[p] = k
            tgt = wrap(out[tuple(sel)])
            c = int_eq(ij, T.num(k))
            if i.ndim:
                c = T.bor(c, int_eq(ij, T.num(k - n))) if not leaves_const(ij) and False else c
            # value for this update
            if i.ndim == 0:
                vv = v.a
            elif v.ndim >= i.ndim and p == 0:
                vv = v.a[j]
            elif v.ndim == 0:
                vv = v.a
            else:
                raise Unsupported("update value layout")
            vv = np.broadcast_to(wrap(vv), tgt.shape)
            new = emap(lambda o, w: T.ite(c, f(o, w), o), tgt, vv)
            out[tuple(sel)] = new if new.ndim else new[()]
    return res()


def _scatter(x, conv, symb, v, f, out, res):
    """Write through several index arrays at once, some of which are runtime values."""
    adv = [p for p, c in enumerate(conv) if isinstance(c, (Arr, np.ndarray, int)) and not isinstance(c, bool)]
    if any(isinstance(conv[p], np.ndarray) and conv[p].dtype == bool or isinstance(conv[p], Arr) and conv[p].dt != "i" for p in adv) \
            or any(not isinstance(c, slice) for p, c in enumerate(conv) if p not in adv):
        raise Unsupported("mixed update")
    arrs = [conv[p].a if p in symb else np.array(conv[p], dtype=int) for p in adv]
    try:
        B = np.broadcast_shapes(*[a.shape for a in arrs])
    except ValueError as e:
        raise PyRaise("ValueError", str(e))
    arrs = [np.broadcast_to(a, B) for a in arrs]
    rest = [p for p in range(x.ndim) if p not in adv]
    full = list(conv) + [slice(None)] * (x.ndim - len(conv))
    kept = [len(range(*full[p].indices(x.shape[p]))) for p in rest]
    first = 0 if adv != list(range(adv[0], adv[-1] + 1)) else sum(1 for p in rest if p < adv[0])
    tshape = tuple(kept[:first]) + B + tuple(kept[first:])
    try:
        vb = np.broadcast_to(v.a, tshape)
    except ValueError as e:
        raise PyRaise("ValueError", str(e))
    vb = np.moveaxis(vb, range(first, first + len(B)), range(len(B)))
    for j in np.ndindex(*B):
        val = wrap(vb[j])
        spans = [range(x.shape[p]) if p in symb else [int(a[j])] for p, a in zip(adv, arrs)]
        for ks in itertools.product(*spans):
            cond = T.TRUE
            sel = list(full)
            for p, a, k in zip(adv, arrs, ks):
                sel[p] = k
                if p in symb:
                    cond = T.band(cond, int_eq(a[j], T.num(k)))
            if cond.op == "b" and not cond.data:
                continue
            try:
                tgt = wrap(out[tuple(sel)])
            except IndexError:
                continue                   # out-of-range scatter is dropped
            new = emap(lambda o, w: T.ite(cond, f(o, w), o), tgt, val)
            out[tuple(sel)] = new if new.ndim else new[()]
    return res()


def dynamic_slice(x, start, sizes):
    x = A(x)
    if isinstance(start, Arr):
        start = list(start)
    out = x
    for ax, (s, n) in enumerate(zip(start, sizes)):
        s = A(s).item()
        n = concrete_int(n)
        N = x.shape[ax]
        clamp = lambda t: T.num(max(0, min(N - n, int(T.cval(t)))))

        def f(l):
            if T.cval(s) is not None:
                k = int(T.cval(clamp(s)))
                return l[k:k + n]
            if s.op == "ite" and leaves_const(s):
                return [lift(lambda t: l[int(T.cval(clamp(t))) + j], s) for j in range(n)]
            return [take_node(l, T.add(s, T.num(j))) for j in range(n)]
        out = along(out, ax, f)
    return out


def select_tree(c, x, y):
    """pytree if-then-else"""
    if isinstance(x, tuple) or isinstance(y, tuple) or isinstance(x, list) or isinstance(y, list):
        if not isinstance(x, (tuple, list)) or not isinstance(y, (tuple, list)) or len(x) != len(y):
            raise PyRaise("TypeError", "branches return different structures")
        return type(x)(select_tree(c, a, b) for a, b in zip(x, y))
    if isinstance(x, dict):
        if not isinstance(y, dict) or set(x) != set(y):
            raise PyRaise("TypeError", "branches return different structures")
        return {k: select_tree(c, x[k], y[k]) for k in x}
    if x is None and y is None:
        return None
    x, y = A(x), A(y)
    if x.shape != y.shape:
        raise PyRaise("TypeError", "branches return different shapes %s %s" % (x.shape, y.shape))
    r = where(c, x, y)
    r.weak = False
    r.traced = True
    return r
