"""Check runner:  python3-vt -m sa.check P01 [--tier quick|thorough] [--strict] [-v]"""
import contextlib
import importlib
import json
import os
import subprocess
import sys
import time
import signal
import traceback

from . import terms as T
from . import model as M
from . import nf
from . import interp as I
from .model import Arr, A, Unsupported, PyRaise, TraceError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")

# raised by Python's own rules or by an explicit `raise`; reliable when seen on a documented call
HARD = {"UnboundLocalError", "NameError", "ValueError!", "NotImplementedError", "AssertionError", "TypeError!",
        "NonConcreteBooleanIndexError", "ConcretizationTypeError", "TracerBoolConversionError", "TracerArrayConversionError"}


ZERO_OK = {"w", "w0", "x", "y", "z", "flux", "mu", "piEN", "piEE", "pe", "pn", "u1", "psi", "phi", "ra", "probe", "xd", "yd", "xe"}    # zero is an ordinary value
WHOLE = ZERO_OK - {"u1"}    # any real (complex) value is ordinary


def divisors(n, gated=False):
    """denominators met when the value graph is evaluated; unless asked for all, those whose infinity must reach the sum"""
    seen, stack, out = set(), [n], []
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "pow" and x.data < 0:
            out.append((x.args[0], x.loc))
        if gated or x.op in ("add", "mul") or x.op == "fn" and x.data[0] in ("conj", "re", "im", "abs") or x.op == "pow" and x.data > 0:
            # below another denominator or a function an infinity may be harmless (1 / inf is 0, arctan(inf) is pi/2)
            stack.extend(a for a in x.args if isinstance(a, T.Node))
    return out


def cases_of(p, gates):
    out = [p]
    for g in gates:
        out = [nf.restrict(q, g, v) for q in out for v in (0, 1)]
    return out


def quotient(p, d):
    """p / d when that is a polynomial"""
    q = nf.pdiv_exact(p, d)
    return q if q is not None and all(e >= 0 for m in q for _, e in m) else None


def excused(v, allowed):
    """every ordinary zero of v is a zero of an allowed denominator or of its conjugate"""
    allowed = [w for a in allowed for w in (a, nf.conj_poly(a)) if len(w) > 1 or w and () not in w]
    for w in allowed:
        for _ in range(6):
            q = quotient(v, w)
            if q is None:
                break
            v = q
    if not can_vanish(v):
        return True
    return any(quotient(w, v) is not None or len(w) <= 4 and quotient(nf.ppow(nf.pmul(w, nf.conj_poly(w)), 2), v) is not None for w in allowed)


def symbols_of(atoms):
    out, seen, stack = set(), set(), list(atoms)
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        at = nf.ATOMS[a]
        if at.kind in ("sym", "csym"):
            out.add(at.key)
        for q in ([at.poly] if at.poly is not None else []) + list(at.args or ()):
            if isinstance(q, dict):
                stack.extend(nf.atoms_of(q))
    return out


def can_vanish(p, gates=()):
    """an ordinary argument, free of the gates, makes the polynomial zero (a sufficient condition)"""
    if not p or nf.batoms(p):
        return False
    taken = symbols_of(gates)
    c, mono, q = nf.content(p)
    base = lambda a: nf.ATOMS[a].key.split("_")[0] if nf.ATOMS[a].kind in ("sym", "csym") and isinstance(nf.ATOMS[a].key, str) and nf.ATOMS[a].key not in taken else None
    if any(e > 0 and base(a) in ZERO_OK for a, e in mono):
        return True
    ats = nf.atoms_of(q)
    if any(nf.ATOMS[a].kind not in ("sym", "csym") for a in ats):
        return False
    for a in ats:
        if base(a) not in WHOLE or max(dict(m).get(a, 0) for m in q) != 1:
            continue
        at = nf.ATOMS[a]
        if at.real:
            if nf.preal(q):
                return True
        elif next(iter(nf.conj_poly({((a, 1),): 1})))[0][0] not in ats:
            return True
    return False


class Mismatch(Exception):
    def __init__(self, label, detail, loc=None, func=None):
        super().__init__(label)
        self.label, self.detail, self.loc, self.func = label, detail, loc, func


class Skip(Exception):
    """the construct this case is about does not exist in this form"""


class TimeUp(BaseException):
    """raised by the timer: not an Exception, so that no handler in the analyser swallows it"""


def _time_up(*_):
    raise TimeUp()


class Ctx:
    def __init__(self, prop, tier="quick", verbose=False):
        self.prop, self.tier, self.verbose = prop, tier, verbose
        self.it = I.Interp()
        self.cases = []        # (label, status, n_equalities)
        self.violations = []
        self.undecided = []
        self.known = []
        self.shapes_matter = ()   # messages about arrays that do not fit together which break the property (internal functions are not replaced)
        self.collect = None    # conversions seen, when another property asks for them
        self.n = 0             # equalities / facts established in the current case
        self.total = 0
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.anchor = None
        self.t0 = time.time()
        self.thorough = tier == "thorough"

    # ------------------------------------------------------------ cases
    @contextlib.contextmanager
    def case(self, label, anchor=None):
        """one proof obligation group; `anchor` names the function it is about"""
        it = self.it
        it.intercepts = {}
        it.ext_intercepts = {}
        it.while_hook = it.call_hook = None
        it.stack = []
        it.steps = 0
        it.effects = []
        it.assume = {}
        M.TRACING[0] = 0
        M.EVENTS.clear()
        T.CUR_LOC[0] = ("<spec>", 0, "<spec>")
        self.n = 0
        self.anchor = anchor
        st = "holds"
        t = time.time()
        total, single = (20000, 3600) if self.thorough else (780, 240)
        signal.signal(signal.SIGALRM, _time_up)
        signal.alarm(int(max(1, min(single, total - (t - self.t0)))))
        try:
            yield self
            signal.alarm(0)
            if self.n == 0:
                raise Skip("no fact compared")
        except TimeUp:
            st = "undecided"
            self.undecided.append((label, "time limit of the case reached at %s:%s" % (T.CUR_LOC[0][0], T.CUR_LOC[0][1])))
        except Mismatch as e:
            st = "violated"
            self.violate(label, e.label, e.detail, e.loc, e.func or anchor)
        except Skip as e:
            st = "undecided"
            self.undecided.append((label, "not found: %s" % e))
        except PyRaise as e:
            explicit = e.loc and e.loc[0].startswith("src/") and self.is_raise(e)
            clash = e.kind == "TypeError" and str(e.msg).startswith(self.shapes_matter) and e.loc and e.loc[0].startswith("src/")
            if explicit or clash or isinstance(e, TraceError) or e.kind in HARD:
                st = "violated"
                self.violate(label, "a documented call raises %s: %s" % (e.kind, e.msg), "", e.loc, anchor)
            else:
                st = "undecided"
                self.undecided.append((label, "analysed program raises %s: %s at %s" % (e.kind, e.msg, (e.loc or ("?", 0, "?"))[:2])))
        except (Unsupported, nf.Budget, RecursionError) as e:
            st = "undecided"
            self.undecided.append((label, "%s: %s at %s:%s" % (type(e).__name__, e, T.CUR_LOC[0][0], T.CUR_LOC[0][1])))
            if self.verbose:
                if not getattr(self, "_tb", 0): traceback.print_exc(limit=-6)
                self._tb = 1
        except Exception as e:          # analyser failure: never an alarm
            st = "undecided"
            self.undecided.append((label, "analyser error %s: %s" % (type(e).__name__, e)))
            if self.verbose:
                if not getattr(self, "_tb", 0): traceback.print_exc(limit=-6)
                self._tb = 1
        finally:
            signal.alarm(0)
        if self.collect is not None:
            self.collect.extend(M.EVENTS)
        self.cases.append((label, st, self.n, round(time.time() - t, 2)))
        self.total += self.n
        if self.verbose:
            print("  [%s] %s (%d facts, %.1fs)" % (st, label, self.n, time.time() - t))

    def is_raise(self, e):
        """is the location an explicit raise statement?"""
        import ast
        path, line = e.loc[0], e.loc[1]
        for m in self.it.modules.values():
            if m.path.endswith(path[len("src/"):]):
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Raise) and n.lineno <= line <= n.end_lineno:
                        return True
        return False

    def violate(self, case, what, detail, loc, func):
        self.violations.append(dict(case=case, what=what, detail=detail, loc=loc, func=func))

    # ------------------------------------------------------------ facts
    def fact(self, label, ok, detail="", loc=None, func=None):
        if not ok:
            raise Mismatch(label, detail, loc, func)
        self.n += 1

    def eq(self, label, code, spec, func=None):
        """entrywise equality of value graphs"""
        if isinstance(spec, (tuple, list)) and not isinstance(code, Arr):
            if not isinstance(code, (tuple, list)) or len(code) != len(spec):
                raise Mismatch(label, "structure differs", None, func)
            for i, (c, s) in enumerate(zip(code, spec)):
                self.eq("%s[%d]" % (label, i), c, s, func)
            return
        if isinstance(code, (tuple, list, dict, str)) or code is None or isinstance(code, (I.Func, I.Obj)):
            raise Mismatch(label, "result is %s where an array is required" % I.describe(code), None, func)
        code, spec = A(code), A(spec)
        if code.shape != spec.shape:
            raise Mismatch(label, "shape %s, required %s" % (code.shape, spec.shape), None, func)
        import numpy as np
        for i in np.ndindex(*spec.shape):
            c, s = code.a[i], spec.a[i]
            if c is s:
                self.n += 1
                continue
            d = nf.padd(nf.poly(c), nf.poly(s), -1)
            if not nf.is_zero(d):
                pos = "" if not i else " at index %s" % (list(i),)
                raise Mismatch(label + pos, "code:     %s\nrequired: %s\ndifference: %s" % (T.show(c, 7)[:900], T.show(s, 7)[:900], nf.show(d, 8)[:900]), c.loc, func)
            self.defined(label, c, s, func)
            self.n += 1
            if len(self.samples) < 6:
                self.samples.append("%s: %s" % (label, T.show(c, 3)[:160]))

    def defined(self, label, c, s, func=None):
        """code equal to the requirement as an expression must not divide by something that can be zero where the requirement is finite"""
        mine = [d for d, loc in divisors(c)]
        if not mine:
            return
        allowed = None
        for d in mine:
            p = nf.frac(nf.poly(d))[0]
            gates = sorted(nf.batoms(p))
            if len(gates) > 4:
                continue
            if not all(can_vanish(v, gates) for v in cases_of(p, gates)):
                continue
            if allowed is None:
                allowed = [nf.frac(nf.poly(x))[0] for x, _ in divisors(s, True)]
            if any(excused(v, vs) for v, *vs in zip(*[cases_of(q, gates) for q in [p] + allowed])):
                continue
            raise Mismatch(label, "divides by %s, which can be zero where the required value is finite" % T.show(d, 5)[:300], d.loc if d.loc and str(d.loc[0]).startswith("src") else c.loc, func)

    def same(self, a, b):
        a, b = A(a), A(b)
        if a.shape != b.shape:
            return False
        import numpy as np
        for i in np.ndindex(*a.shape):
            if a.a[i] is not b.a[i] and not nf.is_zero(nf.padd(nf.poly(a.a[i]), nf.poly(b.a[i]), -1)):
                return False
        return True

    def raises(self, label, kind, th):
        try:
            r = th()
        except PyRaise as e:
            if e.kind != kind:
                raise Mismatch(label, "raises %s instead of %s" % (e.kind, kind), e.loc)
            self.n += 1
            return
        raise Mismatch(label, "no %s is raised; result %s" % (kind, I.describe(r)))

    def call(self, ref, *args, **kw):
        return self.it.call(self.it.get(ref), list(args), kw)

    def rule(self, text):
        self.rules.append(text)


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                # finding: property=Pxx case=<label substring> :: text
                body = l.split(" ", 2)[2]
                key, _, text = body.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def main(argv=None):
    argv = list(argv or sys.argv[1:])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    strict = "--strict" in argv
    verbose = "-v" in argv
    t0 = time.time()
    ctx = Ctx(prop, tier, verbose)
    mod = importlib.import_module("checks.%s" % prop.lower())
    importlib.import_module("checks.common").selftest(ctx)
    try:
        mod.run(ctx)
    except Exception as e:
        traceback.print_exc()
        ctx.undecided.append(("driver", "%s: %s" % (type(e).__name__, e)))
    known = known_findings(prop)
    real = []
    seen = []
    for v in ctx.violations:
        hit = [k for k in known if k[0] and k[0] == "case=%s" % v["case"]]
        if hit:
            seen.append((hit[0], v))
        else:
            real.append(v)
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    report = os.path.join(edir, "%s.report.txt" % prop)
    lines = []
    lines.append("property %s  tier %s" % (prop, tier))
    for c in ctx.cases:
        lines.append("%-10s %5d facts  %s" % (c[1], c[2], c[0]))
    for u in ctx.undecided:
        lines.append("UNDECIDED %s: %s" % u)
    for v in ctx.violations:
        f = v["func"] or ""
        loc = v["loc"]
        lines.append("VIOLATED %s\n  about   %s\n  at      %s\n  %s\n%s" % (v["case"], f, "%s:%s in %s" % tuple(loc) if loc else "-", v["what"],
                     "\n".join("    " + x for x in (v["detail"] or "").split("\n"))))
    open(report, "w").write("\n".join(lines) + "\n")
    visited = sorted(ctx.it.visited.items())
    holds = sum(1 for c in ctx.cases if c[1] == "holds")
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
              coverage=dict(explanation="Static analysis of the current source text: the functions listed were walked by the abstract interpreter, "
                            "their results are value graphs over symbolic inputs, and each fact below is an equality (or structural fact) decided on those graphs by normalisation; nothing is executed.",
                            rules=ctx.rules, cases=len(ctx.cases), cases_holding=holds, facts_established=ctx.total,
                            cases_undecided=len(ctx.undecided), undecided=["%s: %s" % u for u in ctx.undecided],
                            functions_analysed=[k for k, _ in visited], function_activations=sum(n for _, n in visited),
                            call_sites_followed=ctx.it.calls, statements_interpreted=ctx.it.steps,
                            case_list=[dict(case=c[0], status=c[1], facts=c[2]) for c in ctx.cases], samples=ctx.samples,
                            extra=getattr(ctx, "extra", {})),
              assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=len(real))
    json.dump(ev, open(os.path.join(edir, "%s.json" % prop), "w"), indent=1)
    print("%s: %d cases, %d hold, %d undecided, %d facts over %d functions, %.1fs" % (
        prop, len(ctx.cases), holds, len(ctx.undecided), ctx.total, len(visited), time.time() - t0))
    for u in ctx.undecided:
        print("UNDECIDED %s: %s" % (u[0], u[1]))
    for (k, text), v in seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if real:
        for v in real:
            loc = v["loc"]
            print("%s: %s [%s] %s" % (v["case"], v["what"], v["func"] or "", "%s:%s in %s" % tuple(loc) if loc else ""))
            if verbose:
                print(v["detail"])
        print("VIOLATION property=%s replay=%s" % (prop, report))
        return 1
    if strict and (ctx.undecided or getattr(mod, "FLOOR", 0) > ctx.total):
        print("STRICT: undecided or below floor (%d facts)" % ctx.total)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
