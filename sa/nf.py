"""Algebraic normal form of value-graph nodes.

A numeric node becomes a Laurent polynomial over atoms (symbols, reciprocals of
polynomials, roots, exponentials, opaque function applications, 0/1 indicators
of comparisons).  Two nodes have equal value numbers when the difference of
their polynomials reduces to zero.
"""
from fractions import Fraction
from . import terms as T


class Budget(Exception):
    """normal form grew beyond the configured size"""


LIMIT = [400000]


class Atom:
    __slots__ = ("id", "kind", "key", "real", "pos", "depth", "conj", "poly", "n", "opp", "args", "name", "data", "loc")


ATOMS = []
_ATOM = {}
SPECIAL = set()     # ids needing reduction when multiplied
INVSET = set()
BSET = set()


def _atom(kind, key, real=False, pos=False, depth=0):
    k = (kind, key)
    a = _ATOM.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.key, a.real, a.pos, a.depth = kind, key, real, pos, depth
        a.conj = a if real else None
        a.poly = a.n = a.opp = a.args = a.name = a.data = a.loc = None
        ATOMS.append(a)
        _ATOM[k] = a
        if kind in ("I", "root", "prime", "B") or (kind == "E" and key == EPI_KEY[0]):
            SPECIAL.add(a.id)
        if kind == "inv":
            INVSET.add(a.id)
        if kind == "B":
            BSET.add(a.id)
    return a


EPI_KEY = [None]
A_I = _atom("I", None)
A_PI = _atom("sym", "pi", True, True)
EPI_KEY[0] = ((A_I.id, 1), (A_PI.id, 1))

ZERO = {}
ONE = {(): 1}


def cst(c):
    return {(): c} if c else {}


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def padd(p, q, s=1):
    if len(q) > len(p) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * s
        if v:
            r[m] = v
        elif m in r:
            del r[m]
    return r


def pscale(p, c):
    if c == 1:
        return p
    if c == 0:
        return {}
    return {m: norm_c(v * c) for m, v in p.items()}


def pneg(p):
    return {m: -v for m, v in p.items()}


def _merge(m1, m2):
    """merge sorted exponent tuples"""
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a < b:
            out.append(m1[i])
            i += 1
        elif b < a:
            out.append(m2[j])
            j += 1
        else:
            g = e + f
            if isinstance(g, Fraction) and g.denominator == 1:
                g = g.numerator
            if g:
                out.append((a, g))
            i += 1
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


def _reduce(m, c):
    """apply atom relations to a monomial; returns poly"""
    hit = False
    for a, e in m:
        if a in SPECIAL:
            hit = True
            break
    if not hit:
        return {m: c}
    out = []
    extra = None
    bs = None
    for a, e in m:
        if a not in SPECIAL:
            out.append((a, e))
            continue
        A = ATOMS[a]
        k = A.kind
        if k == "I":
            e %= 4
            if e >= 2:
                c = -c
                e -= 2
            if e:
                out.append((a, 1))
        elif k == "B":
            if bs is None:
                bs = set()
            if A.opp is not None and A.opp.id in bs:
                return {}
            bs.add(a)
            out.append((a, 1))
        elif k == "prime":
            f = int(e // 1)
            if f:
                c = norm_c(c * Fraction(A.key) ** f)
                e -= f
            if e:
                out.append((a, e))
        elif k == "E":
            e = e % 2
            if e >= 1:
                c = -c
                e -= 1
            if e:
                d = Fraction(e).denominator
                if d in (2, 3, 4, 6):
                    q = _epi_poly(Fraction(e))
                    extra = q if extra is None else pmul(extra, q)
                else:
                    out.append((a, norm_c(e)))
        elif k == "root":
            n = A.n
            q, r = divmod(e, n)
            if q > 0:
                x = ppow(A.poly, int(q))
                extra = x if extra is None else pmul(extra, x)
            elif q < 0:
                x = inv_poly(A.poly, int(-q))
                extra = x if extra is None else pmul(extra, x)
            if r:
                out.append((a, r))
    res = {tuple(out): c}
    if extra is not None:
        res = pmul(res, extra)
    return res


def _epi_poly(e):
    """exp(i*pi*e) for 0<e<1 with small denominator"""
    i = {((A_I.id, 1),): 1}
    h = Fraction(1, 2)
    tbl = {}
    s3 = pscale({((_prime(3).id, h),): 1}, h)
    s2 = pscale({((_prime(2).id, h),): 1}, h)
    cosd = {Fraction(1, 2): ({}, ONE), Fraction(1, 3): (cst(h), s3), Fraction(2, 3): (cst(-h), s3),
            Fraction(1, 4): (s2, s2), Fraction(3, 4): (pneg(s2), s2), Fraction(1, 6): (s3, cst(h)),
            Fraction(5, 6): (pneg(s3), cst(h))}
    c, s = cosd[e]
    return padd(c, pmul(i, s))


def _prime(p):
    return _atom("prime", p, True, True)


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m1, c1), = p.items()
        if m1 == ():
            return pscale(q, c1)
    if len(p) * len(q) > LIMIT[0]:
        raise Budget("product %d x %d" % (len(p), len(q)))
    r = {}
    for m1, c1 in p.items():
        sp1 = any(a in SPECIAL for a, _ in m1)
        for m2, c2 in q.items():
            m = _merge(m1, m2)
            c = c1 * c2
            if sp1 and any(a in SPECIAL for a, _ in m2) or (m is not m1 and m is not m2 and sp1 and not m2):
                red = _reduce(m, c)
                for mm, cc in red.items():
                    v = r.get(mm, 0) + cc
                    if v:
                        r[mm] = v
                    elif mm in r:
                        del r[mm]
                continue
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            elif m in r:
                del r[m]
    if len(r) > LIMIT[0]:
        raise Budget("poly %d" % len(r))
    for m, v in r.items():
        if type(v) is Fraction and v.denominator == 1:
            r[m] = v.numerator
    return r


def _mono_pow(m, c, k):
    """(c * monomial) ** k for any integer k"""
    extra = None
    if k < 0 and any(a in INVSET for a, _ in m):
        keep = []
        for a, e in m:
            if a in INVSET and e == int(e):
                x = ppow(ATOMS[a].poly, int(-e * k))
                extra = x if extra is None else pmul(extra, x)
            else:
                keep.append((a, e))
        m = tuple(keep)
    r = _reduce(tuple((a, norm_c(e * k)) for a, e in m), norm_c(Fraction(c) ** k) if k < 0 else c ** k)
    return r if extra is None else pmul(r, extra)


def ppow(p, k):
    if k == 0:
        return ONE
    if len(p) == 1:
        (m, c), = p.items()
        return _mono_pow(m, c, k)
    r = ONE
    b = p
    while k:
        if k & 1:
            r = pmul(r, b)
        k >>= 1
        if k:
            b = pmul(b, b)
    return r


def pkey(p):
    return tuple(sorted(p.items(), key=lambda t: t[0]))


def atoms_of(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def batoms(p):
    return [a for a in atoms_of(p) if a in BSET]


def pdepth(p):
    return max([ATOMS[a].depth for a in atoms_of(p)] or [0])


def preal(p):
    return conj_poly(p) == p


def lead(p):
    return max(p)


def content(p):
    """(rational content with sign of the leading term, monomial content, primitive poly)"""
    from math import gcd
    nums = 0
    den = 1
    for v in p.values():
        f = Fraction(v)
        nums = gcd(nums, f.numerator)
        den = den * f.denominator // gcd(den, f.denominator)
    c = Fraction(nums, den)
    mins = {}
    first = True
    for m in p:
        d = dict(m)
        if first:
            mins = dict(d)
            first = False
        else:
            for a in list(mins):
                e = d.get(a, 0)
                if e < mins[a]:
                    mins[a] = e
            for a, e in d.items():
                if a not in mins and e < 0:
                    mins[a] = e
    mono = []
    for a in sorted(mins):
        if a in BSET:
            continue
        if a in SPECIAL and ATOMS[a].kind in ("root", "I"):
            continue
        if mins[a]:
            mono.append((a, mins[a]))
    mono = tuple(mono)
    imono = tuple((a, -e) for a, e in mono)
    q = {}
    for m, v in p.items():
        q[_merge(m, imono)] = norm_c(Fraction(v) / c)
    lm = lead(q)
    if q[lm] < 0:
        q = pneg(q)
        c = -c
    return norm_c(c), mono, q


def mono_inverse(m):
    return tuple((a, -e) for a, e in m)


def pdiv_exact(p, q):
    """p / q if exact, else None.  Both Laurent; uses lexicographic leading terms."""
    if len(q) == 1:
        (m, c), = q.items()
        return pmul(p, _reduce(mono_inverse(m), norm_c(Fraction(1) / c)))
    if len(p) < 2:
        return None
    # quick degree screening
    lq = _lex(q)
    r = dict(p)
    out = {}
    steps = 0
    # work with nonnegative exponents only
    while r:
        steps += 1
        if steps > 4000:
            return None
        lr = _lex(r)
        m = _mdiv(lr, lq)
        if m is None:
            return None
        c = norm_c(Fraction(r[lr]) / q[lq])
        out[m] = c
        for mm, cc in q.items():
            for k, v in _reduce(_merge(m, mm), 1).items():
                w = r.get(k, 0) - norm_c(c * cc * v)
                if w:
                    r[k] = norm_c(w) if isinstance(w, Fraction) else w
                elif k in r:
                    del r[k]
    return out


def _lexkey(m):
    return tuple((-a, e) for a, e in m)


def _lex(p):
    # order: compare exponent of smallest atom id first, larger exponent wins
    best = None
    for m in p:
        if best is None or _lexcmp(m, best) > 0:
            best = m
    return best


def _lexcmp(a, b):
    i = j = 0
    while i < len(a) or j < len(b):
        if i < len(a) and (j >= len(b) or a[i][0] < b[j][0]):
            return 1 if a[i][1] > 0 else -1
        if j < len(b) and (i >= len(a) or b[j][0] < a[i][0]):
            return -1 if b[j][1] > 0 else 1
        if a[i][1] != b[j][1]:
            return 1 if a[i][1] > b[j][1] else -1
        i += 1
        j += 1
    return 0


def _mdiv(a, b):
    d = dict(a)
    for x, e in b:
        f = d.get(x, 0) - e
        if f < 0:
            return None
        if f:
            d[x] = f
        elif x in d:
            del d[x]
    return tuple(sorted(d.items()))


# ------------------------------------------------------------------ inverse
ZOO = None


def zoo():
    a = _atom("sym", "zoo", True, False)
    return {((a.id, 1),): 1}


SHANNON_MAX = 4


def shannon(p, f):
    """apply f to every 0/1 restriction of p's indicators and recombine"""
    bs = batoms(p)
    if not bs:
        return f(p)
    if len(bs) > SHANNON_MAX:
        return None
    bs.sort()
    a = bs[0]
    A = ATOMS[a]
    p1 = restrict(p, a, 1)
    p0 = restrict(p, a, 0)
    r1 = shannon(p1, f)
    r0 = shannon(p0, f)
    if r1 is None or r0 is None:
        return None
    if r1 == r0:
        return r1
    b = {((a, 1),): 1}
    return padd(pmul(b, r1), pmul(padd(ONE, b, -1), r0))


def restrict(p, a, v):
    opp = ATOMS[a].opp
    oid = opp.id if (opp is not None and v) else None
    r = {}
    for m, c in p.items():
        has = False
        dead = False
        for x, e in m:
            if x == a:
                has = True
            elif x == oid:
                dead = True
                break
        if dead:
            continue
        if has:
            if not v:
                continue
            m = tuple(t for t in m if t[0] != a)
        w = r.get(m, 0) + c
        if w:
            r[m] = w
        elif m in r:
            del r[m]
    return r


def inv_poly(p, k=1):
    """p ** -k"""
    if k == 0:
        return ONE
    if not p:
        return zoo()
    if len(p) == 1:
        return ppow(p, -k)
    r = shannon(p, lambda q: _inv_nob(q, k))
    if r is None:
        return _inv_nob(p, k)
    return r


def _inv_nob(p, k):
    if not p:
        return zoo()
    if len(p) == 1:
        return ppow(p, -k)
    n, d = frac(p)      # p = n / d
    c, mono, q = content(n)
    res = _mono_pow(mono, c, -k)
    for f, e in d:
        res = pmul(res, ppow(f, e * k))
    if len(q) == 1:
        (m, cc), = q.items()
        return pmul(res, ppow(q, -k))
    if len(q) == 2 and all(m in ((), ((0, 1),)) for m in q) and k == int(k) and k > 0:
        # non-zero Gaussian rational: rationalise
        a, b = q[()], q[((0, 1),)]
        w = Fraction(1, a * a + b * b) if all(isinstance(v, int) for v in (a, b)) else 1 / Fraction(a * a + b * b)
        return pmul(res, ppow({(): norm_c(a * w), ((0, 1),): norm_c(-b * w)}, int(k)))
    if FACTOR[0] and k == int(k) and k > 0:
        fs = _univariate(q) and factor(q)
        if fs:
            c, parts = fs
            res = pscale(res, norm_c(1 / Fraction(c) ** int(k)))
            for f, e in parts:
                if len(f) == 1:
                    res = pmul(res, ppow(f, -e * int(k)))
                else:
                    res = pmul(res, {((_inv_atom(f).id, norm_c(e * k)),): 1})
            return res
    at = _inv_atom(q)
    return pmul(res, {((at.id, k),): 1})


FACTOR = [False]    # keep reciprocals of univariate real polynomials as products over irreducible factors


def _univariate(q):
    ats = atoms_of(q)
    return all(ATOMS[a].real for a in ats) and sum(1 for a in ats if ATOMS[a].kind != "root") <= 1


def _inv_atom(q):
    at = _atom("inv", pkey(q), False, False, pdepth(q) + 1)
    if at.poly is None:
        at.poly = q
        at.real = preal(q)
        if at.real:
            at.conj = at
    return at


_FRAC = {}


def frac(p):
    """canonical fraction: p == n / prod f**e with common factors cancelled."""
    inv = [a for a in atoms_of(p) if a in INVSET]
    if not inv:
        return p, []
    key = pkey(p)
    hit = _FRAC.get(key)
    if hit is not None:
        return hit
    n, den = clear(p)
    out = []
    for a, e in sorted(den.items()):
        f = ATOMS[a].poly
        while e > 0:
            q = pdiv_exact(n, f)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out.append((f, e))
    _FRAC[key] = (n, out)
    return n, out


def clear(p):
    """multiply by reciprocal atoms until none is left: (numerator, {inv atom: power})"""
    den = {}
    while True:
        inv = [a for a in atoms_of(p) if a in INVSET]
        if not inv or not p:
            return p, den
        a = max(inv, key=lambda x: (ATOMS[x].depth, x))
        mx = max(dict(m).get(a, 0) for m in p)
        f = ATOMS[a].poly
        groups = {}
        for m, c in p.items():
            e = 0
            rest = []
            for x, y in m:
                if x == a:
                    e = y
                else:
                    rest.append((x, y))
            groups.setdefault(mx - e, {})[tuple(rest)] = c
        # Horner in f
        r = {}
        top = max(groups)
        for k in range(top, -1, -1):
            r = pmul(r, f) if r else r
            if k in groups:
                r = padd(r, groups[k])
        den[a] = den.get(a, 0) + mx
        p = r


def canon(p):
    """canonical poly for use as an atom key"""
    if not any(a in INVSET for a in atoms_of(p)):
        return p
    n, d = frac(p)
    r = n
    for f, e in d:
        at = _inv_atom(f) if len(f) > 1 else None
        r = pmul(r, {((at.id, e),): 1})
    return r


# ------------------------------------------------------------------ conj
_CONJ = {}


def conj_atom(a):
    """poly of the conjugate of atom a"""
    A = ATOMS[a]
    if A.real:
        return None
    r = _CONJ.get(a)
    if r is not None:
        return r
    k = A.kind
    if k == "I":
        r = {((a, 1),): -1}
    elif k == "sym":
        b = _atom("csym", A.key)
        r = {((b.id, 1),): 1}
    elif k == "csym":
        b = _atom("sym", A.key)
        r = {((b.id, 1),): 1}
    elif k == "inv":
        r = inv_poly(conj_poly(A.poly))
    elif k == "root":
        r = root_poly(conj_poly(A.poly), A.n)
    elif k == "E":
        r = exp_poly(conj_poly({A.key: 1}))
    elif k == "fn":
        if A.name == "conj":
            r = A.args[0]
        elif A.name in NONANALYTIC:
            r = fn_poly("conj", None, [{((a, 1),): 1}], raw=True)
        else:
            r = fn_poly(A.name, A.data, [conj_poly(x) for x in A.args])
    else:
        r = {((a, 1),): 1}
    _CONJ[a] = r
    return r


NONANALYTIC = {"sort", "take", "poly_roots", "while", "opaque", "rfft", "irfft", "solve", "unique"}


def conj_poly(p):
    r = {}
    memo = {}
    for m, c in p.items():
        base = []
        ex = None
        for a, e in m:
            ca = conj_atom(a)
            if ca is None:
                base.append((a, e))
            else:
                if len(ca) == 1 and isinstance(e, (int, Fraction)):
                    (mm, cc), = ca.items()
                    if cc in (1, -1) and (cc == 1 or e == int(e)):
                        t = {tuple((x, norm_c(y * e)) for x, y in mm): cc ** int(e) if cc == -1 else 1}
                        t = _redp(t)
                    else:
                        t = ppow(ca, int(e))
                else:
                    t = ppow(ca, int(e)) if e > 0 else inv_poly(ca, int(-e))
                ex = t if ex is None else pmul(ex, t)
        q = {tuple(base): c}
        if ex is not None:
            q = pmul(q, ex)
        r = padd(r, q)
    return r


def _redp(p):
    out = {}
    for m, c in p.items():
        out = padd(out, _reduce(m, c))
    return out


# ------------------------------------------------------------------ roots
def root_poly(p, n):
    """principal n-th root"""
    if not p:
        return {}
    r = shannon(p, lambda q: _root_nob(q, n))
    return _root_nob(p, n) if r is None else r


def _factor_int(v):
    f = {}
    d = 2
    while d * d <= v and d < 100000:
        while v % d == 0:
            f[d] = f.get(d, 0) + 1
            v //= d
        d += 1
    if v > 1:
        f[v] = f.get(v, 0) + 1
    return f


def _psqrt(p):
    """polynomial s with s*s == p, or None; ordinary atoms, nonnegative integer exponents"""
    for m in p:
        for a, e in m:
            if e != int(e) or e < 0 or a in SPECIAL:
                return None
    l = _lex(p)
    c = Fraction(p[l])
    from math import isqrt
    if c <= 0 or any(int(e) % 2 for _, e in l):
        return None
    u, v = isqrt(c.numerator), isqrt(c.denominator)
    if u * u != c.numerator or v * v != c.denominator:
        return None
    lead_ = tuple((a, int(e) // 2) for a, e in l)
    s = {lead_: norm_c(Fraction(u, v))}
    for _ in range(40):
        r = padd(p, pmul(s, s), -1)
        if not r:
            return s
        lr = _lex(r)
        m = _mdiv(lr, lead_)
        if m is None or m in s:
            return None
        s = padd(s, {m: norm_c(Fraction(r[lr]) / (2 * Fraction(u, v)))})
    return None


def _root_nob(p, n):
    if not p:
        return {}
    if p == ONE:
        return ONE
    num_, d = frac(p)
    if d:
        r = _root_nob(num_, n)
        for f, e in d:
            q, rem = divmod(e, n)
            # 1/f^(e/n)
            t = _root_nob(ppow(f, rem), n) if rem else ONE
            k = q + (1 if rem else 0)
            # f^(-e/n) = f^((n*k-e)/n) / f^k
            if rem:
                t = _root_nob(ppow(f, n * k - e), n)
            r = pmul(pmul(r, t), inv_poly(f, k))
        return r
    c, mono, q = content(num_)
    out = ONE
    c = Fraction(c)
    sgn = 1
    if c < 0:
        sgn = -1
    c = abs(c)
    for v, s in ((c.numerator, 1), (c.denominator, -1)):
        for pr, e in _factor_int(v).items():
            out = pmul(out, _reduce(((_prime(pr).id, norm_c(Fraction(e * s, n))),), 1))
    inner = q
    if sgn < 0:
        inner = pneg(inner)
    for a, e in mono:
        A = ATOMS[a]
        if A.pos:
            out = pmul(out, _reduce(((a, norm_c(Fraction(e, n))),), 1))
        else:
            if e < 0:
                # a^e inside, e negative: for real a pull a^(-n k) out; complex a stays inside
                k = -int(Fraction(e) // n)
                if A.real and n % 2 == 0:
                    aa = root_poly({((a, 2),): 1}, 2)
                    out = pmul(out, inv_poly(ppow(aa, k)))
                    e = norm_c(e + n * k)
            if e:
                inner = pmul(inner, {((a, e),): 1})
    if inner == ONE:
        return out
    if n == 2 and 3 <= len(inner) <= 60:
        s = _psqrt(inner)
        if s is not None and preal(s):
            for w in (s, pneg(s)):
                if is_positive(w):
                    return pmul(out, w)
    if len(inner) == 1:
        (m, cc), = inner.items()
        if cc == 1 and len(m) == 1 and ATOMS[m[0][0]].kind == "E":
            # root of exp: exp(x/n) when argument real
            a, e = m[0]
            if ATOMS[a].real:
                return pmul(out, {((a, norm_c(Fraction(e) / n)),): 1})
        if m == () and cc == -1 and n == 2:
            return pmul(out, {((A_I.id, 1),): 1})
    at = _atom("root", (pkey(inner), n), False, False, pdepth(inner) + 1)
    if at.poly is None:
        at.poly = inner
        at.n = n
        at.real = preal(inner)
        at.pos = False
        if at.real:
            at.conj = at
    return pmul(out, {((at.id, 1),): 1})


# ------------------------------------------------------------------ exp / log
def exp_poly(p):
    r = shannon(p, _exp_nob)
    return _exp_nob(p) if r is None else r


def _exp_nob(p):
    p = canon(p)
    out = ONE
    for m, c in p.items():
        # log atoms: exp(c*log(x)) -> x**c
        if len(m) == 1 and ATOMS[m[0][0]].kind == "fn" and ATOMS[m[0][0]].name == "log" and m[0][1] == 1:
            x = ATOMS[m[0][0]].args[0]
            cc = Fraction(c)
            if cc.denominator == 1:
                t = ppow(x, int(cc)) if cc > 0 else inv_poly(x, int(-cc))
            else:
                t = ppow(root_poly(x, cc.denominator), cc.numerator) if cc > 0 else inv_poly(root_poly(x, cc.denominator), -cc.numerator)
            out = pmul(out, t)
            continue
        # exp(i k atan2(y, x)) = ((x + i y)/hypot)^k and exp(i k mod(x, y)) = exp(i k x) when k y is a multiple of 2 pi
        if len(m) == 2 and {m[0], m[1]} >= {(A_I.id, 1)} and Fraction(c).denominator == 1:
            o = m[1] if m[0] == (A_I.id, 1) else m[0]
            X = ATOMS[o[0]]
            k = int(c)
            if X.kind == "fn" and o[1] == 1 and X.name == "arctan2" and abs(k) <= 4:
                y, x = X.args
                h = root_poly(canon(padd(pmul(y, y), pmul(x, x))), 2)
                z = padd(x, pmul(PI_, y) if k > 0 else pneg(pmul(PI_, y)))
                out = pmul(out, canon(ppow(pmul(z, inv_poly(h)), abs(k))))
                continue
            if X.kind == "fn" and o[1] == 1 and X.name == "mod":
                w = X.args[1]
                if list(w) == [((A_PI.id, 1),)] and (Fraction(w[((A_PI.id, 1),)]) * k) % 2 == 0:
                    out = pmul(out, exp_poly(pscale(pmul(PI_, X.args[0]), k)))
                    continue
        a = _atom("E", m, all(ATOMS[x].real for x, _ in m), False, pdepth({m: 1}) + 1)
        if a.real:
            a.pos = True
            a.conj = a
        out = pmul(out, _reduce(((a.id, c),), 1))
    return out


def log_poly(p):
    r = shannon(p, _log_nob)
    return _log_nob(p) if r is None else r


def _log_nob(p):
    if p == ONE:
        return {}
    if not p:
        return fn_poly("log", None, [p], raw=True)
    n, d = frac(p)
    c, mono, q = content(n)
    out = {}
    if c > 0:
        for v, s in ((Fraction(c).numerator, 1), (Fraction(c).denominator, -1)):
            for pr, e in _factor_int(v).items():
                out = padd(out, fn_poly("log", None, [cst(pr)], raw=True), e * s)
        c = 1
    rest = pscale(q, c)
    for a, e in mono:
        A = ATOMS[a]
        if A.pos:
            if A.kind == "E":
                out = padd(out, pscale({A.key: 1}, e))
            else:
                out = padd(out, pscale(fn_poly("log", None, [{((a, 1),): 1}], raw=True), e))
        else:
            rest = pmul(rest, {((a, e),): 1})
    if d:
        for f, e in d:
            rest = pmul(rest, inv_poly(f, e))
    if rest != ONE:
        if len(rest) == 1:
            (m, cc), = rest.items()
            if cc == 1 and len(m) == 1 and ATOMS[m[0][0]].kind == "root":
                A = ATOMS[m[0][0]]
                return padd(out, pscale(_log_nob(A.poly), Fraction(m[0][1], A.n)))
            if cc == 1 and len(m) == 1 and ATOMS[m[0][0]].real and m[0][1] == 2:
                pass
        out = padd(out, fn_poly("log", None, [rest], raw=True))
    return out


# ------------------------------------------------------------------ booleans
def is_positive(p):
    """syntactic certificate that p > 0"""
    strict = False
    for m, c in p.items():
        if c < 0:
            return False
        ok = True
        for a, e in m:
            A = ATOMS[a]
            if A.pos:
                continue
            if A.kind == "root" and A.real and A.n % 2 == 0:
                if not is_positive(A.poly):
                    ok = None if ok else ok
                continue
            if A.real and e == int(e) and int(e) % 2 == 0:
                ok = None if ok else ok
                continue
            # |z|^2 pairs
            return False if not _pairs(m) else None
        if ok is True:
            strict = True
    return strict


def _pairs(m):
    return False


def bracket(p, bits=80):
    """rational bounds of a real constant built from rationals and roots of them, or None"""
    from math import isqrt
    lo = hi = Fraction(0)
    for m, c in p.items():
        l = h = Fraction(1)
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "prime":
                b = (Fraction(A.key), Fraction(A.key))
            elif A.kind == "root" and A.real and A.n == 2:
                b = bracket(A.poly, bits + 40)
                e = Fraction(e) / 2
                if b is None or b[0] < 0:
                    return None
            else:
                return None
            e = Fraction(e)
            if e < 0:
                if b[0] <= 0:
                    return None
                b, e = (1 / b[1], 1 / b[0]), -e
            k, r = divmod(e, 1)
            if r not in (0, Fraction(1, 2)):
                return None
            x, y = b[0] ** int(k), b[1] ** int(k)
            if r:
                s = 4 ** bits
                x *= Fraction(isqrt(b[0].numerator * s // b[0].denominator), 2 ** bits)
                y *= Fraction(isqrt(b[1].numerator * s // b[1].denominator) + 1, 2 ** bits)
            l, h = l * x, h * y
        lo, hi = (lo + c * l, hi + c * h) if c > 0 else (lo + c * h, hi + c * l)
    return lo, hi


def grouped_sign(p):
    """sign of a sum of positive monomials whose constant coefficients (rationals and roots of them) all have one sign"""
    n, d = frac(p)
    if not n or not all(is_positive(f) or e % 2 == 0 for f, e in d):
        return None
    groups = {}
    for m, c in n.items():
        out, co = [], []
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "prime" or A.kind == "root" and bracket({((a, 1),): 1}) is not None:
                co.append((a, e))
            elif A.pos or A.real and e == int(e) and e % 2 == 0 and A.kind != "inv":
                out.append((a, e))
            else:
                return None
        g = groups.setdefault(tuple(out), {})
        g[tuple(co)] = g.get(tuple(co), 0) + c
    sign, strict = 0, False
    for m, g in groups.items():
        b = bracket(g)
        if b is None or b[0] <= 0 <= b[1]:
            return None
        s = 1 if b[0] > 0 else -1
        if sign and s != sign:
            return None
        sign = s
        strict = strict or all(ATOMS[a].pos for a, _ in m)
    return sign if strict else None


def pos_poly(p):
    r = shannon(p, _pos_nob)
    if r is None:
        return _pos_nob(p)
    return r


def _sqfree(n, d):
    r = n
    for f, e in d:
        if e % 2:
            r = pmul(r, f)
    return r


def _square_sides(q):
    """x > y for nonnegative x, y is x^2 > y^2 (applied where it removes roots)"""
    if not 2 <= len(q) <= 6:
        return None
    some = False
    X, Y = {}, {}
    for m, c in q.items():
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "root" and A.real and A.n == 2 and e == 1:
                some = True
            elif not A.pos and not (A.real and e == int(e) and int(e) % 2 == 0 and A.kind != "inv"):
                return None
        (X if c > 0 else Y)[m] = abs(c)
    if not some or not X or not Y:
        return None
    r = padd(pmul(X, X), pmul(Y, Y), -1)
    if len(q) > 2 and any(ATOMS[a].kind == "root" for m in r for a, _ in m):
        return None
    return r or None


def _pos_nob(p):
    if not p:
        return {}
    n, d = frac(p)
    r = _sqfree(n, d)
    c, mono, q = content(r)
    s = 1 if c > 0 else -1
    sq = _square_sides(q)
    if sq is not None:
        q = sq
        c2, m2, q = content(q)
        s = s if c2 > 0 else -s
        mono = tuple(mono) + tuple(m2)
    keep = []
    for a, e in mono:
        A = ATOMS[a]
        if A.pos or A.kind == "root" and A.real and A.n % 2 == 0 and is_positive(A.poly):
            continue
        if A.real and e == int(e) and int(e) % 2 != 0:
            keep.append((a, 1))
        else:
            keep.append((a, 2 if e == int(e) and A.real else e))
    q = pmul(q, {tuple(keep): 1}) if keep else q
    if q == ONE:
        return ONE if s > 0 else {}
    if is_positive(q):
        return ONE if s > 0 else {}
    k = pkey(q)
    dp = pdepth(q) + 1
    P = _atom("B", ("pos", k), True, False, dp)
    if P.poly is None:
        P.poly = q
        P.name = "pos"
        E = _atom("B", ("eq", _eqkey(q)), True, False, dp)
        if E.poly is None:
            E.poly = _eqnorm(q)
            E.name = "eq"
        P.opp = E
        E.opp = P
    if s > 0:
        return {((P.id, 1),): 1}
    return padd(padd(ONE, {((P.id, 1),): 1}, -1), {((P.opp.id, 1),): 1}, -1)


def _eqnorm(q):
    c, mono, r = content(q)
    keep = tuple((a, 1) for a, e in mono if not ATOMS[a].pos and e > 0)
    if keep:
        r = pmul(r, {keep: 1})
    return r


def _eqkey(q):
    return pkey(_eqnorm(q))


def eq_poly(p):
    r = shannon(p, _eq_nob)
    return _eq_nob(p) if r is None else r


def _eq_nob(p):
    if not p:
        return ONE
    n, d = frac(p)
    if not n:
        return ONE
    q = _eqnorm(n)
    if all(m in ((), ((0, 1),)) for m in q):        # non-zero Gaussian rational
        return {}
    if is_positive(q):
        return {}
    # make the sign-twin first so that opposite pairing exists
    if preal(q):
        _pos_nob(q)
    elif len(q) <= 60:
        qc = conj_poly(q)
        for part in (padd(q, qc), pmul(padd(q, qc, -1), {((A_I.id, 1),): 1})):
            if part and (is_positive(part) or is_positive(pneg(part))):
                return {}
    E = _atom("B", ("eq", pkey(q)), True, False, pdepth(q) + 1)
    if E.poly is None:
        E.poly = q
        E.name = "eq"
    return {((E.id, 1),): 1}


def b_fn(name, data, args):
    key = (name, data, tuple(pkey(canon(a)) for a in args))
    B = _atom("B", key, True, False, max([pdepth(a) for a in args] or [0]) + 1)
    if B.name is None:
        B.name = name
        B.args = [canon(a) for a in args]
        B.data = data
    return {((B.id, 1),): 1}


def bnot(p):
    return padd(ONE, p, -1)


# ------------------------------------------------------------------ functions
COMM = {"max", "min", "sort", "any", "all"}


def fn_poly(name, data, args, raw=False, real=None, loc=None):
    if not raw and len(args) <= 2 and name not in ("while", "take", "opaque"):
        for i, a in enumerate(args):
            bs = batoms(a)
            if bs and len(bs) <= SHANNON_MAX:
                return shannon(a, lambda q: fn_poly(name, data, args[:i] + [q] + args[i + 1:], False, real, loc))
    if name == "log" and not raw:
        return log_poly(args[0])
    if name in ("max", "min"):
        pass
    cargs = [canon(a) for a in args]
    keys = [pkey(a) for a in cargs]
    if name in COMM:
        order = sorted(range(len(keys)), key=lambda i: keys[i])
        keys = [keys[i] for i in order]
        cargs = [cargs[i] for i in order]
    if real is None:
        if name in T.REALFN:
            real = True
        elif name in NONANALYTIC or name == "conj" or not cargs:
            real = False
        else:
            real = all(preal(a) for a in cargs)
    A = _atom("fn", (name, data, tuple(keys)), real, False, max([pdepth(a) for a in cargs] or [0]) + 1)
    if A.name is None:
        A.name = name
        A.data = data
        A.args = cargs
        A.loc = loc
        if real:
            A.real = True
            A.conj = A
    return {((A.id, 1),): 1}


# ------------------------------------------------------------------ nodes -> poly
_MEMO = {}


def reset():
    pass


def poly(n):
    r = _MEMO.get(n.id)
    if r is None:
        r = _poly(n)
        if len(r) > LIMIT[0]:
            raise Budget("size")
        _MEMO[n.id] = r
    return r


HALF = Fraction(1, 2)
PI_ = {((A_I.id, 1),): 1}


def _small(r):
    """cancel common factors of small rational expressions when that shortens them"""
    if 1 <= len(r) <= 12:
        inv = [a for a in atoms_of(r) if a in INVSET]
        if inv and len(inv) <= 3 and all(len(ATOMS[a].poly) <= 4 and not _deep(a) for a in inv):
            q = canon(r)
            if len(q) < len(r) or (len(q) == len(r) and sum(1 for a in atoms_of(q) if a in INVSET) < len(inv)):
                return q
    return r


def _poly(n):
    op = n.op
    if op == "c":
        a, b = n.data
        r = cst(norm_c(a))
        if b:
            r = padd(r, {((A_I.id, 1),): norm_c(b)})
        return r
    if op == "b":
        return ONE if n.data else {}
    if op == "sym":
        name, real, ps = n.data
        a = _atom("sym", name, real, ps)
        return {((a.id, 1),): 1}
    if op == "bsym":
        B = _atom("B", ("bsym", n.data), True, False, 1)
        B.name = "bsym"
        return {((B.id, 1),): 1}
    if op == "add":
        r = {}
        for x in n.args:
            r = padd(r, poly(x))
        return _small(r)
    if op == "mul":
        ps = sorted((poly(x) for x in n.args), key=len)
        r = ONE
        for p in ps:
            r = pmul(r, p)
        return _small(r)
    if op == "pow":
        e = n.data
        x = n.args[0]
        if x.op == "mul" and e.denominator == 1:
            r = ONE
            for y in x.args:
                r = pmul(r, poly(T.power(y, e)))
            return r
        p = poly(x)
        if e.denominator == 1:
            e = int(e)
            if e < 0:
                return inv_poly(p, -e)
            return ppow(p, e)
        q = e.denominator
        k = e.numerator
        if k > 0:
            return ppow(root_poly(p, q), k)
        return inv_poly(root_poly(p, q), -k)
    if op == "powx":
        b, e = n.args
        return exp_poly(pmul(poly(e), poly(T.fn("log", (b,)))))
    if op == "ite":
        c, x, y = (poly(a) for a in n.args)
        if x == y:
            return x
        return padd(pmul(c, x), pmul(bnot(c), y))
    if op == "pos":
        return pos_poly(poly(n.args[0]))
    if op == "eq0":
        return eq_poly(poly(n.args[0]))
    if op == "not":
        return bnot(poly(n.args[0]))
    if op == "and":
        if len(n.args) > 10:
            ps = [p for p in (poly(a) for a in n.args) if p != ONE]
            if any(p == ZERO for p in ps):
                return ZERO
            return b_fn("all", None, sorted(ps, key=pkey)) if ps else ONE
        r = ONE
        for a in sorted((poly(a) for a in n.args), key=len):
            r = pmul(r, a)
        return r
    if op == "or":
        if len(n.args) > 10:
            ps = [p for p in (poly(a) for a in n.args) if p != ZERO]
            if any(p == ONE for p in ps):
                return ONE
            return b_fn("any", None, sorted(ps, key=pkey)) if ps else ZERO
        r = ONE
        for a in sorted((bnot(poly(a)) for a in n.args), key=len):
            r = pmul(r, a)
        return bnot(r)
    if op == "fn":
        name, data = n.data
        a = [poly(x) for x in n.args]
        if name == "conj":
            return conj_poly(a[0])
        if name == "re":
            return pscale(padd(a[0], conj_poly(a[0])), HALF)
        if name == "im":
            return pmul(pscale(padd(a[0], conj_poly(a[0]), -1), -HALF), PI_)
        if name == "abs":
            return abs_node(n.args[0])
        if name == "exp":
            return exp_poly(a[0])
        if name == "log":
            return log_poly(a[0])
        if name in ("cos", "sin", "tan", "cosh", "sinh", "tanh"):
            x = a[0] if name[-1] == "h" else pmul(PI_, a[0])
            ep = exp_poly(x)
            em = exp_poly(pneg(x))
            c = pscale(padd(ep, em), HALF)
            s = pscale(padd(ep, em, -1), HALF)
            if name in ("sin", "tan"):
                s = pneg(pmul(s, PI_))
            if name in ("cos", "cosh"):
                return c
            if name in ("sin", "sinh"):
                return s
            return pmul(s, inv_poly(c))
        if name == "sigmoid":
            return inv_poly(padd(ONE, exp_poly(pneg(a[0]))))
        if name in ("max", "min") and len(a) == 2:
            d = pos_poly(padd(a[0], a[1], -1))
            x, y = (a[0], a[1]) if name == "max" else (a[1], a[0])
            if x == y:
                return x
            return padd(pmul(d, x), pmul(bnot(d), y))
        if name == "min":
            return pneg(fn_poly("max", None, [pneg(x) for x in a], raw=True))
        if name == "zoo":
            return zoo()
        if n.isbool:
            return b_fn(name, data, a)
        return fn_poly(name, data, a, real=n.isreal or None, loc=n.loc)
    raise TypeError(op)


def abs_node(x):
    if x.op == "mul":
        r = ONE
        for y in x.args:
            r = pmul(r, abs_node(y))
        return r
    if x.op == "pow" and x.data.denominator == 1:
        p = abs_node(x.args[0])
        e = int(x.data)
        return ppow(p, e) if e > 0 else inv_poly(p, -e)
    return abs_poly(poly(x))


def abs_poly(p):
    r = shannon(p, _abs_nob)
    return _abs_nob(p) if r is None else r


def _abs_nob(p):
    if not p:
        return {}
    n, d = frac(p)
    c, mono, q = content(n)
    out = cst(norm_c(abs(c)))
    for a, e in mono:
        A = ATOMS[a]
        if A.pos:
            t = {((a, e),): 1}
        else:
            b = {((a, 1),): 1}
            s = root_poly(pmul(b, conj_poly(b)), 2)
            if s == ONE:
                t = ONE
            elif Fraction(e).denominator != 1:
                raise Budget("modulus of a fractional power")
            else:
                t = ppow(s, int(e)) if e > 0 else inv_poly(s, int(-e))
        out = pmul(out, t)
    if q != ONE:
        out = pmul(out, _modulus(q))
    for f, e in d:
        out = pmul(out, inv_poly(ppow(_modulus(f), e)))
    return out


def _modulus(q):
    """|q| for a polynomial without reciprocals: real factors are split so that |fg| = |f||g| and |f^2| = f^2"""
    if preal(q):
        if is_positive(q):
            return q
        fs = factor(q)
        if fs is None:
            return root_poly(pmul(q, q), 2)
        c, parts = fs
        out = cst(norm_c(abs(c)))
        for f, e in parts:
            if e % 2 == 0 or is_positive(f):
                t = ppow(f, e)
            elif definite(f):
                t = ppow(f if definite(f) > 0 else pneg(f), e)
            else:
                t = pmul(ppow(f, e - 1), root_poly(pmul(f, f), 2)) if e > 1 else root_poly(pmul(f, f), 2)
            out = pmul(out, t)
        return out
    n = pmul(q, conj_poly(q))
    fs = FACTOR[0] and preal(n) and _univariate(n) and factor(n)
    if not fs:
        return root_poly(n, 2)
    c, parts = fs
    out, rest = ONE, cst(norm_c(abs(c)))
    neg = c < 0
    for f, e in parts:
        if e > 1:
            m = f if is_positive(f) or definite(f) > 0 else pneg(f) if definite(f) < 0 else root_poly(pmul(f, f), 2)
            out = pmul(out, ppow(m, e // 2))
        if e % 2:
            if definite(f) < 0:
                f, neg = pneg(f), not neg
            rest = pmul(rest, f)
    return pmul(out, root_poly(pneg(rest) if neg else rest, 2))


_FACT = {}


def factor(p):
    """(rational constant, [(irreducible, multiplicity)]) over the rationals; None when not a plain polynomial in few atoms"""
    if len(p) < 2 or len(p) > 4000:
        return None
    ats = sorted(atoms_of(p))
    if not ats or len(ats) > 6:
        return None
    for m in p:
        for a, e in m:
            if e != int(e) or e < 0 or (a in SPECIAL and ATOMS[a].kind != "root") or a in INVSET:
                return None
    key = pkey(p)
    hit = _FACT.get(key)
    if hit is not None:
        return hit
    import sympy
    gens = [sympy.Symbol("x%d" % a) for a in ats]
    pos = {a: i for i, a in enumerate(ats)}
    d = {}
    for m, c in p.items():
        ex = [0] * len(ats)
        for a, e in m:
            ex[pos[a]] = int(e)
        c = Fraction(c)
        d[tuple(ex)] = sympy.Rational(c.numerator, c.denominator)
    P = sympy.Poly.from_dict(d, *gens, domain="QQ")
    if len(gens) > 1 and sum(1 for a in ats if ATOMS[a].kind != "root") == 1:
        # one free atom and moduli: split completely in the free atom, by multiplicity in the moduli
        x = gens[[ATOMS[a].kind != "root" for a in ats].index(True)]
        rest = [g for g in gens if g is not x]
        inner = sympy.Poly.from_dict({}, x, domain="QQ")
        for co in sympy.Poly(P.as_expr(), *rest).coeffs():
            inner = inner.gcd(sympy.Poly(co, x, domain="QQ"))
        c, fl = inner.factor_list()
        c2, f2 = P.quo(sympy.Poly(inner.as_expr(), *gens, domain="QQ")).sqf_list()
        c, fl = c * c2, [(sympy.Poly(f.as_expr(), *gens, domain="QQ"), e) for f, e in fl] + f2
    else:
        c, fl = P.factor_list()
    out = []
    const = Fraction(int(c.p), int(c.q))
    for f, e in fl:
        q = {}
        for ex, k in f.terms():
            q = padd(q, _reduce(tuple((a, x) for a, x in zip(ats, ex) if x), norm_c(Fraction(int(k.p), int(k.q)))))
        cc, _, prim = content(q)
        if q != pscale(prim, cc):
            prim = q
            cc = 1
        const *= Fraction(cc) ** e
        out.append((prim, e))
    out.sort(key=lambda t: pkey(t[0]))
    _FACT[key] = (const, out)
    return _FACT[key]


_DEF = {}


def definite(p):
    """sign of a polynomial in one real atom without real zeros (0 when it may vanish or is not of that form)"""
    ats = atoms_of(p)
    if len(ats) != 1 or any(a in SPECIAL or not ATOMS[a].real for a in ats):
        return 0
    key = pkey(p)
    r = _DEF.get(key)
    if r is None:
        import sympy
        x = sympy.Symbol("x")
        P = sympy.Poly.from_dict({(int(dict(m).get(next(iter(ats)), 0)),): sympy.Rational(Fraction(c).numerator, Fraction(c).denominator) for m, c in p.items()}, x, domain="QQ")
        if P.count_roots():
            r = 0
        else:
            r = 1 if P.eval(0) > 0 else -1
        _DEF[key] = r
    return r


# ------------------------------------------------------------------ zero test
SPLITS = [0]
MAXSPLIT = [20000]


def is_zero(p):
    SPLITS[0] = 0
    return _zero(p)


def _zero(p, depth=0):
    if not p:
        return True
    if any(a in INVSET for a in atoms_of(p)):
        p = unify(p)
        if not p or _groups_vanish(p, depth):
            return True
        p, _ = clear(p)
        if not p:
            return True
    p = unify(p)
    if not p:
        return True
    bs = batoms(p)
    if not bs:
        return False
    SPLITS[0] += 1
    if SPLITS[0] > MAXSPLIT[0]:
        raise Budget("case splits")
    # conjunctions and disjunctions kept whole: split on their members
    agg = {b for b in bs if ATOMS[b].name in ("all", "any")}
    inner = set()
    for b in sorted(agg):
        inner |= _members(b)
    bs = (set(bs) - agg) | inner
    if agg and not inner:
        bs = set(agg)
    # group thresholds of one quantity
    a = min(inner or bs)
    A = ATOMS[a]
    restrict = _restrict_agg if agg else globals()["restrict"]
    if A.name not in ("pos", "eq") or A.poly is None:
        return _zero(restrict(p, a, 1), depth + 1) and _zero(restrict(p, a, 0), depth + 1)
    base = {m: c for m, c in A.poly.items() if m != ()}
    grp = []
    for b in bs:
        B = ATOMS[b]
        if B.name not in ("pos", "eq") or B.poly is None:
            continue
        q = {m: c for m, c in B.poly.items() if m != ()}
        r = _ratio(q, base)
        if r is not None:
            # B.poly = r*(base + k)
            k = Fraction(B.poly.get((), 0)) / r
            grp.append((b, B.name, r, k))
    cuts = sorted({-k for _, _, _, k in grp})
    # regions: below c0, at c0, between, ...
    regions = []
    for i, c in enumerate(cuts):
        regions.append(("lt", c) if i == 0 else ("bt", cuts[i - 1], c))
        regions.append(("at", c))
    regions.append(("gt", cuts[-1]))
    for rg in regions:
        q = p
        if rg[0] == "lt":
            v = rg[1] - 1
        elif rg[0] == "bt":
            v = (rg[1] + rg[2]) / 2
        elif rg[0] == "gt":
            v = rg[1] + 1
        else:
            v = rg[1]
        for b, nm, r, k in grp:
            s = r * (v + k)
            val = (s > 0) if nm == "pos" else (s == 0)
            q = restrict(q, b, 1 if val else 0)
        if not q:
            continue
        if rg[0] == "at":
            q = eliminate(q, padd(base, cst(norm_c(-v))))
        if not _zero(q, depth + 1):
            return False
    return True


def _members(b):
    """ordinary boolean atoms a conjunction or disjunction is made of"""
    out = set()
    for q in ATOMS[b].args:
        for x in batoms(q):
            out |= _members(x) if ATOMS[x].name in ("all", "any") else {x}
    return out


def _restrict_agg(p, a, v):
    """restrict p, also inside the conjunctions and disjunctions that are kept whole"""
    p = restrict(p, a, v)
    for b in [x for x in batoms(p) if ATOMS[x].name in ("all", "any") and a in _members(x)]:
        B = ATOMS[b]
        args = [_restrict_agg(q, a, v) for q in B.args]
        stop, skip = (ZERO, ONE) if B.name == "all" else (ONE, ZERO)
        args = [q for q in args if q != skip]
        if any(q == stop for q in args):
            new = stop
        elif not args:
            new = skip
        elif len(args) == 1:
            new = args[0]
        else:
            new = b_fn(B.name, None, sorted(args, key=pkey))
        r = {}
        for m, c in p.items():
            if any(x == b for x, _ in m):
                r = padd(r, pmul({tuple(t for t in m if t[0] != b): c}, new))
            else:
                r = padd(r, {m: c})
        p = r
    return p


def _groups_vanish(p, depth):
    """sufficient test: every coefficient of a product of opaque/indicator atoms vanishes"""
    ats = atoms_of(p)
    deep = {a for a in ats if ATOMS[a].kind in ("fn", "B", "root") or _deep(a)}
    if not deep:
        return False
    g = {}
    for m, c in p.items():
        k = tuple(t for t in m if t[0] in deep)
        g.setdefault(k, {})[tuple(t for t in m if t[0] not in deep)] = c
    for k, q in g.items():
        if not any(a in INVSET for a in atoms_of(q)):
            return False
    for k, q in g.items():
        q, _ = clear(q)
        if q:
            return False
    return True


_SAME = {}
_BUSY = set()


def _same_atom(x, y):
    """congruence: are the operands of two applications of one operator equal?"""
    k = (x, y) if x < y else (y, x)
    r = _SAME.get(k)
    if r is None:
        if k in _BUSY:
            return False
        _BUSY.add(k)
        sv = SPLITS[0]
        try:
            X, Y = ATOMS[x], ATOMS[y]
            if X.kind == "root":
                r = X.n == Y.n and _zero(padd(X.poly, Y.poly, -1))
            elif X.kind == "inv":
                r = _zero(padd(X.poly, Y.poly, -1))
            elif X.kind == "B" and X.poly is not None:
                r = _zero(padd(X.poly, Y.poly, -1))
            else:
                r = all(_zero(padd(u, v, -1)) for u, v in zip(X.args, Y.args))
        finally:
            _BUSY.discard(k)
            SPLITS[0] = sv
        _SAME[k] = r
    return r


def unify(p):
    groups = {}
    for a in sorted(atoms_of(p)):
        X = ATOMS[a]
        if X.kind == "fn":
            groups.setdefault(("fn", X.name, X.data, len(X.args)), []).append(a)
        elif X.kind == "root":
            groups.setdefault(("root", X.n), []).append(a)
        elif X.kind == "inv":
            groups.setdefault(("inv", len(X.poly) > 1), []).append(a)
        elif X.kind == "B" and X.name != "bsym":
            groups.setdefault(("B", X.name, X.data, X.poly is None, len(X.args or ())), []).append(a)
    for k, g in groups.items():
        if len(g) < 2 or len(g) > 24:
            continue
        i = 0
        while i < len(g):
            j = i + 1
            while j < len(g):
                if _deep(g[i]) and _deep(g[j]) and _same_atom(g[i], g[j]):
                    q = _subst_mono(p, g[j], g[i])
                    if q is None:
                        j += 1
                        continue
                    p = q
                    del g[j]
                else:
                    j += 1
            i += 1
    return p


_DEEP = {}


def _deep(a):
    """does the atom contain opaque applications or indicators (so that its key may not be canonical)?"""
    r = _DEEP.get(a)
    if r is None:
        X = ATOMS[a]
        ps = [X.poly] if X.poly is not None else list(X.args or ())
        r = False
        for q in ps:
            for b in atoms_of(q):
                if ATOMS[b].kind in ("fn", "B", "inv", "root"):
                    r = True
        _DEEP[a] = r
    return r


def _subst_mono(p, a, b):
    out = {}
    for m, c in p.items():
        e = 0
        rest = []
        for x, y in m:
            if x == a:
                e = y
            else:
                rest.append((x, y))
        if e:
            t = _reduce(_merge(tuple(rest), ((b, e),)), c)
        else:
            t = {m: c}
        for mm, cc in t.items():
            v = out.get(mm, 0) + cc
            if v:
                out[mm] = v
            elif mm in out:
                del out[mm]
    return out


def _ratio(q, base):
    if len(q) != len(base) or not base:
        return None
    m = next(iter(base))
    if m not in q:
        return None
    r = Fraction(q[m]) / base[m]
    for k, c in base.items():
        if q.get(k, 0) != c * r:
            return None
    return r


def eliminate(p, d):
    """substitute a solution of d == 0 into p (only if d is linear in some symbol)"""
    if not d:
        return p
    if any(a in INVSET for a in atoms_of(p)):
        p, _ = clear(p)
    # roots whose radicand differs from a multiple of d by a constant become constants
    base = {m: c for m, c in d.items() if m != ()}
    for a in sorted(atoms_of(p)):
        A = ATOMS[a]
        if A.kind == "root" and A.poly is not None and A.n == 2:
            r = _ratio({m: c for m, c in A.poly.items() if m != ()}, base)
            if r is None:
                continue
            k = norm_c(Fraction(A.poly.get((), 0)) - r * Fraction(d.get((), 0)))
            if k == 0:
                continue
            q = subst(p, a, root_poly(cst(k), 2))
            if q is not None:
                p = q
    for a in sorted(atoms_of(d), reverse=True):
        A = ATOMS[a]
        if A.kind in ("I", "prime") or a == A_PI.id or a in BSET:
            continue
        lin = {}
        rest = {}
        ok = True
        for m, c in d.items():
            e = 0
            for x, y in m:
                if x == a:
                    e = y
            if e == 0:
                rest[m] = c
            elif e == 1:
                lin[tuple(t for t in m if t[0] != a)] = c
            else:
                ok = False
                break
        if not ok:
            continue
        if A.kind in ("root",):
            continue
        sol = pmul(pneg(rest), inv_poly(lin))
        # avoid circular atoms
        r = subst(p, a, sol)
        if r is None:
            continue
        # complex symbol: also its conjugate
        if A.kind in ("sym", "csym") and not A.real:
            other = next(iter(conj_atom(a)))[0][0]
            r = subst(r, other, conj_poly(sol))
            if r is None:
                continue
        return r
    return _reduce_mod(p, d)


def _reduce_mod(p, d):
    """remainder of p modulo d, as polynomials in an atom whose leading coefficient in d is a number"""
    for a in sorted(atoms_of(d), reverse=True):
        A = ATOMS[a]
        if A.kind in ("I", "prime", "root") or a == A_PI.id or a in BSET or a in INVSET:
            continue
        deg, lead, low, ok = 0, {}, {}, True
        parts = {}
        for m, c in d.items():
            e = dict(m).get(a, 0)
            if e != int(e) or e < 0:
                ok = False
                break
            parts.setdefault(int(e), {})[tuple(t for t in m if t[0] != a)] = c
        if not ok:
            continue
        deg = max(parts)
        if deg < 2 or list(parts[deg]) != [()]:
            continue
        lc = Fraction(parts[deg][()])
        low = {}
        for e, q in parts.items():
            if e < deg:
                low = padd(low, pmul(q, {((a, e),): 1} if e else ONE))
        low = pscale(low, norm_c(-1 / lc))          # a^deg == low
        for _ in range(40):
            hi, rest = {}, {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                if e != int(e):
                    return p
                if e >= deg:
                    m2 = tuple((x, y) if x != a else (x, y - deg) for x, y in m if x != a or y != deg)
                    hi = padd(hi, {m2: c})
                else:
                    rest = padd(rest, {m: c})
            if not hi:
                return p
            p = padd(rest, pmul(hi, low))
        return p
    return p


def subst(p, a, q):
    out = {}
    for m, c in p.items():
        e = 0
        rest = []
        for x, y in m:
            if x == a:
                e = y
            else:
                rest.append((x, y))
        t = {tuple(rest): c}
        if e:
            if e != int(e):
                return None
            t = pmul(t, ppow(q, int(e)) if e > 0 else inv_poly(q, int(-e)))
        out = padd(out, t)
    return out


def show(p, limit=6):
    if not p:
        return "0"
    out = []
    for m, c in list(sorted(p.items()))[:limit]:
        s = []
        if c != 1 or not m:
            s.append(str(c))
        for a, e in m:
            t = show_atom(a)
            s.append(t if e == 1 else "%s^%s" % (t, e))
        out.append("*".join(s))
    if len(p) > limit:
        out.append("… (%d terms)" % len(p))
    return " + ".join(out)


def show_atom(a, depth=2):
    A = ATOMS[a]
    if A.kind == "sym":
        return str(A.key)
    if A.kind == "csym":
        return "conj(%s)" % A.key
    if A.kind == "I":
        return "i"
    if A.kind == "prime":
        return str(A.key)
    if A.kind == "inv":
        return "1/(%s)" % show(A.poly, 4)
    if A.kind == "root":
        return "root%d(%s)" % (A.n, show(A.poly, 4))
    if A.kind == "E":
        return "exp(%s)" % show({A.key: 1})
    if A.kind == "B":
        if A.name in ("pos", "eq"):
            return "[%s %s 0]" % (show(A.poly, 4), ">" if A.name == "pos" else "==")
        return "%s" % (A.name if A.name != "bsym" else A.key[1],)
    return "%s(%s)" % (A.name, ", ".join(show(x, 3) for x in (A.args or [])[:4]))
