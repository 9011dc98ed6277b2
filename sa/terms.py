"""Hash-consed value graph.

Every program value is a node of a directed acyclic graph; nodes with the same
operator and operands are one object, so sharing in the graph is value
numbering.  Nodes remember the first source location that produced them.
"""
from fractions import Fraction
import sys

sys.setrecursionlimit(200000)

_TABLE = {}
CUR_LOC = [("<none>", 0, "<none>")]


class Node:
    __slots__ = ("op", "args", "data", "id", "isreal", "isbool", "loc", "__weakref__")

    def __repr__(self):
        return show(self)


def _mk(op, args, data, isreal, isbool=False):
    key = (op, tuple(a.id for a in args), data)
    n = _TABLE.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.data = op, tuple(args), data
        n.id = len(_TABLE)
        n.isreal, n.isbool = isreal, isbool
        n.loc = CUR_LOC[0]
        _TABLE[key] = n
    return n


def num(re, im=0):
    re, im = Fraction(re), Fraction(im)
    return _mk("c", (), (re, im), im == 0)


def from_py(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        return bconst(x)
    if isinstance(x, int):
        return num(x)
    if isinstance(x, Fraction):
        return num(x)
    if isinstance(x, float):
        return from_float(x)
    if isinstance(x, complex):
        return add(from_float(x.real), mul(I, from_float(x.imag)))
    raise TypeError("from_py %r" % (x,))


def from_float(x):
    if x != x:
        return NAN
    if x in (float("inf"), float("-inf")):
        return INF if x > 0 else neg(INF)
    return num(Fraction(repr(x)))


def sym(name, real=True, pos=False, nz=False):
    return _mk("sym", (), (name, bool(real or pos), bool(pos)), bool(real or pos))


def bsym(name):
    return _mk("bsym", (), name, True, True)


def bconst(v):
    return _mk("b", (), bool(v), True, True)


ZERO = num(0)
ONE = num(1)
MONE = num(-1)
HALF = num(Fraction(1, 2))
I = num(0, 1)
TRUE = bconst(True)
FALSE = bconst(False)
PI = sym("pi", True, True)
INF = sym("inf", True, True)
NAN = sym("nan", True, False)


def is_const(n):
    return n.op == "c" or n.op == "b"


def cval(n):
    """Fraction value of a real constant node (or None)."""
    if n.op == "c" and n.data[1] == 0:
        return n.data[0]
    if n.op == "b":
        return Fraction(int(n.data))
    return None


def tonum(n):
    """Boolean node used as number."""
    if n.op == "b":
        return ONE if n.data else ZERO
    return n


def add(*xs):
    re, im = Fraction(0), Fraction(0)
    out = []
    for x in xs:
        x = tonum(x)
        if x.op == "c":
            re += x.data[0]
            im += x.data[1]
        elif x.op == "add":
            for y in x.args:
                if y.op == "c":
                    re += y.data[0]
                    im += y.data[1]
                else:
                    out.append(y)
        else:
            out.append(x)
    if re or im:
        out.append(num(re, im))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return _mk("add", out, None, all(o.isreal for o in out))


def mul(*xs):
    re, im = Fraction(1), Fraction(0)
    out = []
    stack = list(xs)[::-1]
    while stack:
        x = tonum(stack.pop())
        if x.op == "c":
            a, b = x.data
            re, im = re * a - im * b, re * b + im * a
        elif x.op == "mul":
            stack.extend(x.args[::-1])
        else:
            out.append(x)
    if re == 0 and im == 0:
        return ZERO
    if not out:
        return num(re, im)
    if re != 1 or im != 0:
        out.append(num(re, im))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return _mk("mul", out, None, all(o.isreal for o in out))


def neg(x):
    return mul(MONE, x)


def sub(x, y):
    return add(x, neg(y))


def div(x, y):
    y = tonum(y)
    return mul(x, power(y, Fraction(-1)))


def power(x, e):
    """x ** e with a rational constant e."""
    x = tonum(x)
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return x
    if x.op == "c":
        a, b = x.data
        if b == 0 and e.denominator == 1:
            if a == 0:
                return ZERO if e > 0 else fn("zoo", ())
            return num(a ** int(e))
        if b == 0 and a in (0, 1) and e > 0:
            return x
        if e.denominator == 1 and (a or b):
            k = abs(int(e))
            re, im = Fraction(1), Fraction(0)
            for _ in range(k):
                re, im = re * a - im * b, re * b + im * a
            if e < 0:
                d = re * re + im * im
                re, im = re / d, -im / d
            return num(re, im)
    if x.op == "pow" and e.denominator == 1:
        return power(x.args[0], x.data * e) if x.data.denominator == 1 or True else None
    return _mk("pow", (x,), e, x.isreal)


REALFN = {"abs", "re", "im", "max", "min", "floor", "sign", "arctan2", "erf", "gammaln", "argsort", "argmax",
          "argmin", "mod", "floordiv", "digitize", "bincount", "arccos_r", "slogdet", "interp", "uniform", "argwhere"}
BOOLFN = {"isnan", "isfinite", "any", "all", "isin", "bopaque", "isclose"}


def fn(name, args, data=None, real=None):
    args = tuple(from_py(a) for a in args)
    if real is None:
        if name in REALFN:
            real = True
        elif name in ("conj",):
            real = False
        else:
            real = all(a.isreal for a in args) and bool(args)
    return _mk("fn", args, (name, data), real, name in BOOLFN)


def conj(x):
    x = tonum(x)
    if x.isreal:
        return x
    if x.op == "c":
        return num(x.data[0], -x.data[1])
    return _mk("fn", (x,), ("conj", None), False)


def re(x):
    x = tonum(x)
    if x.isreal:
        return x
    if x.op == "c":
        return num(x.data[0])
    return fn("re", (x,), real=True)


def im(x):
    x = tonum(x)
    if x.isreal:
        return ZERO
    if x.op == "c":
        return num(x.data[1])
    return fn("im", (x,), real=True)


def absv(x):
    x = tonum(x)
    v = cval(x)
    if v is not None:
        return num(abs(v))
    return fn("abs", (x,), real=True)


def sqrt(x):
    return power(x, Fraction(1, 2))


def exp(x):
    x = tonum(x)
    if x is ZERO:
        return ONE
    return fn("exp", (x,))


# ---- booleans
def sign_of(x):
    """+1 / -1 / None: sign known from symbol attributes"""
    if x.op == "c":
        return None if x.data[1] or not x.data[0] else (1 if x.data[0] > 0 else -1)
    if x.op == "sym":
        return 1 if x.data[2] else None
    if x.op == "mul":
        s = 1
        for y in x.args:
            t = sign_of(y)
            if t is None:
                return None
            s *= t
        return s
    if x.op == "pow":
        t = sign_of(x.args[0])
        return 1 if t == 1 else (1 if t == -1 and x.data.denominator == 1 and x.data.numerator % 2 == 0 else None)
    if x.op == "add":
        ts = {sign_of(y) for y in x.args}
        return ts.pop() if len(ts) == 1 else None
    if x.op == "fn" and x.data[0] == "exp" and x.isreal:
        return 1
    return None


def _extremum(x):
    """a max or min among the terms of x: (coefficient sign, node, remaining terms, coefficient)"""
    terms = x.args if x.op == "add" else (x,)
    for i, t in enumerate(terms):
        k, f = ONE, t
        if t.op == "mul":
            fs = [y for y in t.args if y.op == "fn" and y.data[0] in ("max", "min")]
            rest = [y for y in t.args if y not in fs]
            if len(fs) != 1 or len(rest) != 1 or cval(rest[0]) is None:
                continue
            k, f = rest[0], fs[0]
        if f.op == "fn" and f.data[0] in ("max", "min") and len(f.args) <= 16:
            return (1 if cval(k) > 0 else -1), f, terms[:i] + terms[i + 1:], k
    return None


def nonneg(n):
    """can the sign of this node be seen to be non-negative?"""
    if sign_of(n) == 1:
        return True
    if n.op == "c":
        return not n.data[1] and n.data[0] >= 0
    if n.op == "fn":
        if n.data[0] in ("abs", "sqrt", "exp") and n.isreal:
            return True
        if n.data[0] == "max":
            return any(nonneg(a) for a in n.args)
        if n.data[0] == "min":
            return all(nonneg(a) for a in n.args)
    if n.op in ("mul", "add"):
        return all(nonneg(a) for a in n.args)
    if n.op == "pow" and n.args[0].isreal:
        return nonneg(n.args[0]) or (n.data.denominator == 1 and n.data.numerator % 2 == 0)
    if n.op == "ite":
        return nonneg(n.args[1]) and nonneg(n.args[2])
    return False


def pull(xs):
    """common non-negative factor of real nodes: (factor, remaining nodes)"""
    parts = [list(x.args) if x.op == "mul" else [x] for x in xs]
    if len(xs) < 2 or any(p == [ZERO] for p in parts):
        return ONE, xs
    common = [f for f in parts[0] if f.op != "c" and nonneg(f) and all(any(f is g for g in p) for p in parts[1:])]
    cs = {next((f for f in p if f.op == "c"), ONE) for p in parts}
    if len(cs) == 1 and nonneg(next(iter(cs))) and next(iter(cs)) is not ONE and all(len(p) > 1 for p in parts):
        common.append(next(iter(cs)))
    if not common:
        return ONE, xs
    out = []
    for p in parts:
        p = list(p)
        for f in common:
            p.remove(f)
        out.append(mul(*p) if p else ONE)
    return mul(*common), out


def pos(x):
    """x > 0"""
    x = tonum(x)
    e = _extremum(x) if x.op in ("add", "mul", "fn") else None
    if e is not None:
        s, f, rest, k = e
        if x.op != "add" or len(rest) <= 8:
            parts = [pos(add(mul(k, a), *rest)) for a in f.args]
            return (bor if (f.data[0] == "max") == (s > 0) else band)(*parts)
    v = cval(x)
    if v is not None:
        return bconst(v > 0)
    s = sign_of(x)
    if s is not None:
        return bconst(s > 0)
    return _mk("pos", (x,), None, True, True)


def eq0(x):
    x = tonum(x)
    if x.op == "c":
        return bconst(x.data == (0, 0))
    if x.isbool:
        return bnot(x)
    if sign_of(x) is not None:
        return FALSE
    return _mk("eq0", (x,), None, True, True)


def gt(a, b):
    return pos(sub(a, b))


def lt(a, b):
    return pos(sub(b, a))


def ge(a, b):
    return bnot(lt(a, b))


def le(a, b):
    return bnot(gt(a, b))


def eq(a, b):
    return eq0(sub(a, b))


def tobool(x):
    if x.isbool:
        return x
    if x.op == "c":
        return bconst(x.data != (0, 0))
    return bnot(eq0(x))


def bnot(x):
    x = tobool(x)
    if x.op == "b":
        return bconst(not x.data)
    if x.op == "not":
        return x.args[0]
    return _mk("not", (x,), None, True, True)


def _bool_nary(op, unit, xs):
    out = {}
    for x in xs:
        x = tobool(x)
        if x.op == "b":
            if x.data == unit:
                continue
            return bconst(not unit)
        if x.op == op:
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    if not out:
        return bconst(unit)
    xs = [out[k] for k in sorted(out)]
    if len(xs) == 1:
        return xs[0]
    return _mk(op, xs, None, True, True)


def band(*xs):
    return _bool_nary("and", True, xs)


def bor(*xs):
    return _bool_nary("or", False, xs)


def ite(c, x, y):
    c = tobool(c)
    if c.op == "b":
        return x if c.data else y
    if x is y:
        return x
    if x.isbool and y.isbool:
        return bor(band(c, x), band(bnot(c), y))
    x, y = tonum(x), tonum(y)
    if x is y:
        return x
    if c.op == "not":
        c, x, y = c.args[0], y, x
    return _mk("ite", (c, x, y), None, x.isreal and y.isreal)


def show(n, depth=6):
    if n.op == "c":
        a, b = n.data
        if b == 0:
            return str(a)
        if a == 0:
            return "%si" % b
        return "(%s+%si)" % (a, b)
    if n.op == "b":
        return str(n.data)
    if n.op in ("sym",):
        return n.data[0]
    if n.op == "bsym":
        return n.data
    if depth == 0:
        return "…"
    a = [show(x, depth - 1) for x in n.args]
    if n.op == "add":
        return "(" + " + ".join(a) + ")"
    if n.op == "mul":
        return "*".join(a)
    if n.op == "pow":
        return "%s^(%s)" % (a[0], n.data)
    if n.op == "fn":
        nm, d = n.data
        return "%s%s(%s)" % (nm, "" if d is None else "[%s]" % (str(d)[:40],), ", ".join(a[:6]) + (", …" if len(a) > 6 else ""))
    if n.op == "ite":
        return "if(%s, %s, %s)" % tuple(a)
    if n.op == "pos":
        return "[%s > 0]" % a[0]
    if n.op == "eq0":
        return "[%s == 0]" % a[0]
    return "%s(%s)" % (n.op, ", ".join(a))
