"""Abstract interpreter of the analysed sources.

It walks the syntax tree of a function and computes, for every variable, the
value graph of that variable (global value numbering across calls, with gated
merges at conditionals).  No analysed code is imported or executed.
"""
import ast
import os
from fractions import Fraction
import numpy as np

from . import terms as T
from . import model as M
from .model import Arr, Unsupported, PyRaise, TraceError, A

PKG_ROOT = os.environ.get("MICROJAX_SRC", "/repo/src")
PKG = "microjax"
MAXSTEPS = 3000000


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Env:
    __slots__ = ("vars", "parent", "locals", "module", "globals_", "nonlocals", "func", "kind")

    def __init__(self, parent, module, locals_=None, func=None, kind="func"):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.locals = locals_
        self.globals_ = ()
        self.nonlocals = ()
        self.func = func
        self.kind = kind


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.src, path)
        self.env = Env(None, self, kind="module")
        self.done = False

    def __repr__(self):
        return "<module %s>" % self.name


class Func:
    def __init__(self, node, env, module, qualname, defaults, kwdefaults, owner=None):
        self.node, self.env, self.module, self.qualname = node, env, module, qualname
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner
        self.attrs = {}

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    @property
    def key(self):
        return "%s:%s" % (self.module.name, self.qualname)

    def __repr__(self):
        return "<function %s>" % self.key


class Wrapped:
    def __getattr__(self, k):
        if k in ("fn",):
            raise AttributeError(k)
        return getattr(self.fn, k)


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Jit:
    def __init__(self, fn, names, nums):
        self.fn, self.names, self.nums = fn, names, nums


class Vmap:
    def __init__(self, fn, in_axes=0, out_axes=0):
        self.fn, self.in_axes, self.out_axes = fn, in_axes, out_axes


class CustomJVP:
    def __init__(self, fn, nondiff=()):
        self.fn, self.nondiff = fn, nondiff
        self.jvp = None


class Deriv:
    """jax.grad / jacfwd / value_and_grad of something: only called opaquely"""

    def __init__(self, fn, kind, kw):
        self.fn, self.kind, self.kw = fn, kind, kw


class Ckpt:
    def __init__(self, fn):
        self.fn = fn


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "<builtin %s>" % self.name


class Cls:
    def __init__(self, name, bases, env, module, node):
        self.name, self.bases, self.module, self.node = name, bases, module, node
        self.vars = env.vars
        self.fields = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, k):
        for c in self.mro():
            if k in c.vars:
                return c.vars[k], c
        return None, None

    @property
    def key(self):
        return "%s:%s" % (self.module.name, self.name)


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Ext:
    """external (library) name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    @property
    def dtname(self):
        n = self.name.split(".")
        if n[0] in ("numpy", "jax") and n[-1] in M.DTYPES:
            return n[-1]
        return None


class ExcType:
    def __init__(self, name):
        self.name = name


class Exc:
    def __init__(self, name, args):
        self.name, self.args = name, args


class At:
    def __init__(self, x):
        self.x = x


class AtIdx:
    def __init__(self, x, i):
        self.x, self.i = x, i


class Opaque:
    """uninterpreted Python object"""

    def __init__(self, name):
        self.name = name


_LOCALS = {}


def local_names(node):
    r = _LOCALS.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    names, glob, nonl = set(), set(), set()

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    names.add(w.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)
    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(p.arg)
    for p in (a.vararg, a.kwarg):
        if p:
            names.add(p.arg)
    r = (node, (names - glob - nonl, glob, nonl))
    _LOCALS[id(node)] = r
    return r[1]


# ----------------------------------------------------------------- pytrees
def tree_map(f, *xs):
    x = xs[0]
    if isinstance(x, tuple):
        for y in xs[1:]:
            if not isinstance(y, (tuple, list)) or len(y) != len(x):
                raise PyRaise("TypeError", "structures differ")
        r = [tree_map(f, *t) for t in zip(*xs)]
        return type(x)(r) if type(x) is tuple else tuple(r)
    if isinstance(x, list):
        for y in xs[1:]:
            if not isinstance(y, (tuple, list)) or len(y) != len(x):
                raise PyRaise("TypeError", "structures differ")
        return [tree_map(f, *t) for t in zip(*xs)]
    if isinstance(x, dict):
        return {k: tree_map(f, *[y[k] for y in xs]) for k in x}
    if x is None:
        return None
    if isinstance(x, Obj) and x.cls.fields is not None:
        o = Obj(x.cls)
        for k in x.cls.fields:
            o.attrs[k] = tree_map(f, *[y.attrs[k] for y in xs])
        return o
    return f(*xs)


def tree_leaves(x):
    out = []
    tree_map(lambda t: out.append(t), x)
    return out


def mark_traced(x, what="argument"):
    def f(v):
        if isinstance(v, (bool, int, float, complex, Fraction)):
            v = M.lit(v)
        if isinstance(v, Arr):
            r = Arr(v.a, v.dt, False, True, False)
            return r
        if isinstance(v, M.DT) or isinstance(v, (str, Func, Ext, Jit, Vmap, Builtin, Partial, CustomJVP, Obj, Opaque)):
            raise TraceError("TypeError", "%s of a compiled function is not an array: %s" % (what, describe(v)))
        return v
    return tree_map(f, x)


def describe(v):
    if isinstance(v, Arr):
        return "array%s" % (v.shape,)
    if isinstance(v, str):
        return repr(v)
    return repr(v)[:60]


class Interp:
    def __init__(self, root=None):
        self.root = root or PKG_ROOT
        self.modules = {}
        self.intercepts = {}
        self.ext_intercepts = {}
        self.steps = 0
        self.visited = {}
        self.calls = 0
        self.while_hook = None
        self.call_hook = None
        self.effects = []
        self.jitsites = {}
        self.stack = []
        self.wcount = 0
        self.jvps = {}
        self.assume = {}
        from . import extlib
        self.lib = extlib.Lib(self)
        self.builtins = self.lib.builtins()

    # ---------------------------------------------------------------- modules
    def module_path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            path = self.module_path(name)
            if path is None:
                if name.split(".")[0] == PKG:
                    d = os.path.join(self.root, *name.split("."))
                    if os.path.isdir(d):
                        return None
                    raise PyRaise("ModuleNotFoundError", name)
                return None
            m = Module(name, path)
            self.modules[name] = m
            saved = T.CUR_LOC[0], M.TRACING[0]
            M.TRACING[0] = 0
            try:
                self.exec_block(m.tree.body, m.env)
            finally:
                T.CUR_LOC[0], M.TRACING[0] = saved
            m.done = True
        return m

    def get(self, ref):
        """'pkg.mod:name' or 'pkg.mod:Class.method' -> value"""
        mod, _, name = ref.partition(":")
        m = self.module(mod)
        if m is None:
            raise Unsupported("no module %s" % mod)
        v = None
        for i, part in enumerate(name.split(".")):
            if i == 0:
                if part not in m.env.vars:
                    raise Unsupported("%s not found in %s" % (name, mod))
                v = m.env.vars[part]
            else:
                v = self.getattr(v, part)
        return v

    def has(self, ref):
        try:
            self.get(ref)
            return True
        except Unsupported:
            return False

    # ---------------------------------------------------------------- statements
    def loc(self, node, env):
        if hasattr(node, "lineno"):
            fn = self.stack[-1] if self.stack else "<module>"
            T.CUR_LOC[0] = (os.path.relpath(env.module.path, os.path.dirname(self.root)), node.lineno, fn)

    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unsupported("analysis step budget")
        self.loc(s, env)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            full = a.name
            if full.split(".")[0] == PKG:
                m = self.module(full)
                if a.asname:
                    self.bind(env, a.asname, m)
                else:
                    self.bind(env, PKG, self.module(PKG))
                continue
            if a.asname:
                self.bind(env, a.asname, Ext(full))
            else:
                self.bind(env, full.split(".")[0], Ext(full.split(".")[0]))

    def s_ImportFrom(self, s, env):
        mod = s.module or ""
        if s.level:
            base = env.module.name.split(".")
            if not env.module.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod.split(".")[0] == PKG:
            m = self.module(mod)
            for a in s.names:
                if a.name == "*":
                    al = m.env.vars.get("__all__")
                    for k, v in m.env.vars.items():
                        if (al is not None and k in al) or (al is None and not k.startswith("_")):
                            self.bind(env, k, v)
                    continue
                if m is not None and a.name in m.env.vars:
                    v = m.env.vars[a.name]
                else:
                    sub = self.module(mod + "." + a.name) if self.module_path(mod + "." + a.name) else None
                    if sub is None:
                        raise PyRaise("ImportError", "cannot import %s from %s" % (a.name, mod))
                    v = sub
                self.bind(env, a.asname or a.name, v)
            return
        for a in s.names:
            if mod == "__future__":
                continue
            if a.name == "*":
                raise Unsupported("star import of %s" % mod)
            self.bind(env, a.asname or a.name, self.lib.ext(mod + "." + a.name))

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        v = f
        for d in reversed(s.decorator_list):
            self.loc(d, env)
            v = self.call(self.ev(d, env), [v], {})
        self.bind(env, s.name, v)

    def make_func(self, node, env, name=None):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {p.arg: self.ev(d, env) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        nm = name or getattr(node, "name", "<lambda>")
        owner = None
        if env.kind == "class":
            q = "%s.%s" % (env.func, nm)
        elif env.kind == "module":
            q = nm
        else:
            q = "%s.%s" % (self.stack[-1] if self.stack else "", nm)
        return Func(node, env, env.module, q, defaults, kwd, owner)

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        cenv = Env(env, env.module, None, s.name, "class")
        self.exec_block(s.body, cenv)
        c = Cls(s.name, bases, cenv, env.module, s)
        for k, v in cenv.vars.items():
            f = v
            while isinstance(f, (Jit, CustomJVP, Ckpt, Partial)) or isinstance(f, tuple) and f and f[0] in ("property", "static", "classm"):
                f = f[1] if isinstance(f, tuple) else f.fn
            if isinstance(f, Func):
                f.owner = c
        fields = [t.target.id for t in s.body if isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name)]
        if any(isinstance(b, Ext) and b.name.split(".")[-1] == "NamedTuple" for b in bases):
            c.fields = fields
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        self.bind(env, s.name, v)

    def s_Return(self, s, env):
        raise _Return(None if s.value is None else self.ev(s.value, env))

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = OPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, env)
            v = self.ev(s.value, env)
            if isinstance(cur, list) and op == "+":
                cur.extend(self.iterate(v))
                self.effect("mutate", cur, "+=")
                return
            r = self.binop(op, cur, v)
            if isinstance(cur, Arr) and cur.isnp and isinstance(r, Arr) and r.shape == cur.shape and cur.ndim > 0:
                if cur.dt in "bif" and r.dt == "c" or cur.dt in "bi" and r.dt == "f":
                    raise PyRaise("UFuncTypeError", "cannot cast output of in-place operation")
                cur.a[...] = r.a
                self.effect("mutate", cur, op + "=")
                r = cur
            self.assign(s.target, r, env)
            return
        if isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, env)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.binop(op, cur, self.ev(s.value, env)))
            return
        if isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, env)
            i = self.ev_index(s.target.slice, env)
            cur = self.getitem(o, i)
            self.store_item(o, i, self.binop(op, cur, self.ev(s.value, env)))
            return
        raise Unsupported("augmented assignment target")

    def s_If(self, s, env):
        c = self.ev(s.test, env)
        b = self.truth_or_sym(c)
        if isinstance(b, bool):
            self.exec_block(s.body if b else s.orelse, env)
            return
        self.fork(b, s.body, s.orelse, env)

    def fork(self, cond, body, orelse, env):
        """gated merge of the two arms of a data-dependent branch of host code"""
        before = dict(env.vars)
        res = []
        for blk in (body, orelse):
            env.vars = dict(before)
            ret = None
            try:
                self.exec_block(blk, env)
            except _Return as r:
                ret = (r.v,)
            except PyRaise as e:
                ret = e
            res.append((env.vars, ret))
        (v1, r1), (v2, r2) = res
        if isinstance(r1, PyRaise) and isinstance(r2, PyRaise):
            raise r1
        if isinstance(r1, PyRaise) or isinstance(r2, PyRaise):
            bad = r1 if isinstance(r1, PyRaise) else r2
            self.effects.append(("raises-when", bad.kind, T.show(cond), bad.loc))
            env.vars = v2 if bad is r1 else v1
            good = r2 if bad is r1 else r1
            if good:
                raise _Return(good[0])
            return
        if r1 and r2:
            env.vars = before
            raise _Return(self.merge(cond, r1[0], r2[0]))
        if r1 or r2:
            raise Unsupported("early return under a data-dependent host branch")
        out = {}
        for k in set(v1) | set(v2):
            if k in v1 and k in v2:
                a, b = v1[k], v2[k]
                out[k] = a if a is b else self.merge(cond, a, b)
        env.vars = out

    def merge(self, c, x, y):
        if x is y:
            return x
        tr = M.TRACING[0]
        r = M.select_tree(Arr(c, "b"), x, y)

        def fix(v, a, b):
            if isinstance(v, Arr):
                v.traced = A(a).traced or A(b).traced
            return v
        return tree_map(fix, r, x, y)

    def truth_or_sym(self, c):
        if isinstance(c, Arr):
            if c.size != 1:
                if c.traced:
                    raise TraceError("ConcretizationTypeError", "truth value of an array")
                raise PyRaise("ValueError", "truth value of an array is ambiguous")
            n = T.tobool(c.item())
            if c.traced:
                raise TraceError("TracerBoolConversionError", "Python branch on runtime data")
            if n.op == "b":
                return n.data
            if n.id in self.assume:
                return self.assume[n.id]
            if n.op == "not" and n.args[0].id in self.assume:
                return not self.assume[n.args[0].id]
            return n
        return self.truth(c)

    def truth(self, c):
        if isinstance(c, Arr):
            r = self.truth_or_sym(c)
            if isinstance(r, bool):
                return r
            raise Unsupported("host branch on symbolic data")
        if c is None or isinstance(c, (bool, int, str, tuple, list, dict, set, range, Fraction)):
            return bool(c)
        return True

    def s_For(self, s, env):
        it = self.iterate(self.ev(s.iter, env))
        brk = False
        for v in it:
            self.loc(s, env)
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except _Break:
                brk = True
                break
            except _Continue:
                continue
        if not brk:
            self.exec_block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 20000:
                raise Unsupported("long while loop")
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Raise(self, s, env):
        if s.exc is None:
            raise PyRaise("RuntimeError", "re-raise")
        v = self.ev(s.exc, env)
        if isinstance(v, ExcType):
            raise PyRaise(v.name, "")
        if isinstance(v, Exc):
            raise PyRaise(v.name, " ".join(str(a) for a in v.args if isinstance(a, str)))
        if isinstance(v, Obj):
            raise PyRaise(v.cls.name, "")
        raise PyRaise("Exception", "")

    def s_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    names = self.exc_names(h.type, env)
                    if names is None or e.kind in names or "Exception" in names or "BaseException" in names:
                        if h.name:
                            self.bind(env, h.name, Exc(e.kind, [e.msg]))
                        self.exec_block(h.body, env)
                        return
                raise
            self.exec_block(s.orelse, env)
        finally:
            self.exec_block(s.finalbody, env)

    def exc_names(self, t, env):
        if t is None:
            return None
        v = self.ev(t, env)
        vs = v if isinstance(v, tuple) else (v,)
        return {getattr(x, "name", "?") for x in vs}

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(s.body, env)

    def s_Assert(self, s, env):
        c = self.truth_or_sym(self.ev(s.test, env))
        if c is False:
            raise PyRaise("AssertionError", "")

    def s_Global(self, s, env):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                i = self.ev_index(t.slice, env)
                if isinstance(o, (dict, list)):
                    del o[i]
                    self.effect("mutate", o, "del")
                else:
                    raise Unsupported("del")

    # ---------------------------------------------------------------- binding
    def bind(self, env, name, v):
        if env.kind == "func":
            loc, glob, nonl = local_names(env.func.node) if isinstance(env.func, Func) else ((), (), ())
            if name in glob:
                self.effects.append(("global-write", name, T.CUR_LOC[0]))
                env.module.env.vars[name] = v
                return
            if name in nonl:
                e = env.parent
                while e is not None and name not in e.vars:
                    e = e.parent
                if e is not None:
                    e.vars[name] = v
                    return
        env.vars[name] = v

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if not (e.kind == "class" and not first):
                if name in e.vars:
                    return e.vars[name]
                if e.kind == "func" and isinstance(e.func, Func) and e.locals is not None and name in e.locals:
                    raise PyRaise("UnboundLocalError" if first else "NameError", "%s is not bound on this path" % name)
            if e.kind != "comp":
                first = False
            e = e.parent
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise("NameError", "name %s is not defined" % name)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(vs) < n:
                    raise PyRaise("ValueError", "not enough values to unpack")
                tail = len(t.elts) - i - 1
                mid = vs[i:len(vs) - tail]
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, list(mid), env)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - tail:]):
                    self.assign(e, x, env)
                return
            if len(vs) != len(t.elts):
                raise PyRaise("ValueError", "cannot unpack %d values into %d targets" % (len(vs), len(t.elts)))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.store_item(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def effect(self, kind, obj, how):
        self.effects.append((kind, id(obj), obj, how, T.CUR_LOC[0]))

    def setattr(self, o, k, v):
        if isinstance(o, Obj):
            o.attrs[k] = v
            self.effects.append(("setattr", id(o), o, k, T.CUR_LOC[0]))
        elif isinstance(o, (Module, Cls)):
            (o.env.vars if isinstance(o, Module) else o.vars)[k] = v
            self.effects.append(("global-write", k, T.CUR_LOC[0]))
        elif isinstance(o, Func):
            o.attrs[k] = v
            self.effects.append(("global-write", k, T.CUR_LOC[0]))
        elif isinstance(o, (Jit, Wrapped, CustomJVP)):
            pass
        else:
            raise Unsupported("attribute store on %s" % describe(o))

    def store_item(self, o, i, v):
        if isinstance(o, (list, dict)):
            if isinstance(o, list):
                i = M.concrete_int(i) if not isinstance(i, slice) else M.cslice(i)
            else:
                i = hashable(i)
            o[i] = v
            self.effect("mutate", o, "[]=")
            return
        if isinstance(o, Arr):
            if not o.isnp:
                raise PyRaise("TypeError", "item assignment on an immutable JAX array")
            if isinstance(v, Arr) and v.traced:
                raise TraceError("TracerArrayConversionError", "runtime data stored in a NumPy array")
            r = M.setitem(o, i, v)
            o.a[...] = r.a
            self.effect("mutate", o, "[]=")
            return
        raise Unsupported("item store on %s" % describe(o))

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return M.lit(v)
        if isinstance(v, complex):
            return M.lit(v)
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.seq(e.elts, env))

    def e_List(self, e, env):
        return self.seq(e.elts, env)

    def e_Set(self, e, env):
        return set(hashable(v) for v in self.seq(e.elts, env))

    def seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[hashable(self.ev(k, env))] = self.ev(v, env)
        return d

    def e_BinOp(self, e, env):
        x = self.ev(e.left, env)
        y = self.ev(e.right, env)
        return self.binop(OPS[type(e.op)], x, y)

    def binop(self, op, x, y):
        if isinstance(x, bool) and isinstance(y, bool) and op in "&|^":
            return {"&": x and y, "|": x or y, "^": x != y}[op]
        if isinstance(x, (str,)) or isinstance(y, str):
            if op == "+" and isinstance(x, str) and isinstance(y, str):
                return x + y
            if op == "%":
                return "<formatted>"
            if op == "*":
                return x * y
            raise PyRaise("TypeError", "bad string operation")
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and op == "+":
            if type(x) is not type(y):
                raise PyRaise("TypeError", "list + tuple")
            return x + y
        if isinstance(x, (list, tuple)) and isinstance(y, int) and op == "*":
            return x * y
        if isinstance(y, (list, tuple)) and isinstance(x, int) and op == "*":
            return x * y
        if isinstance(x, (list, tuple)) and isinstance(y, Arr) or isinstance(y, (list, tuple)) and isinstance(x, Arr):
            o = y if isinstance(y, Arr) else x
            if not o.isnp:
                raise PyRaise("TypeError", "JAX array arithmetic with a Python sequence")
        if isinstance(x, (set,)) and isinstance(y, set):
            return {"|": x | y, "&": x & y, "-": x - y}[op]
        if isinstance(x, dict) and isinstance(y, dict) and op == "|":
            r = dict(x)
            r.update(y)
            return r
        if isinstance(x, Ext) or isinstance(y, Ext):
            return Ext("typing.op")          # X | Y annotations
        for v in (x, y):
            if v is None or isinstance(v, (Func, Cls, dict, Jit)):
                raise PyRaise("TypeError", "unsupported operand for %s: %s" % (op, describe(v)))
            if isinstance(v, Obj):
                nm = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__"}.get(op)
                if v is x and nm:
                    f, _ = x.cls.lookup(nm)
                    if f is not None:
                        return self.call(Bound(f, x), [y], {})
                raise Unsupported("operator on object")
        if op == "@":
            return M.matmul(A(x), A(y))
        return M.binop(op, x, y)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            b = self.truth_or_sym(v)
            return (not b) if isinstance(b, bool) else Arr(T.bnot(b), "b", False, False, True)
        if isinstance(e.op, ast.USub):
            return M.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return M.invert(v)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        v = None
        for x in e.values:
            v = self.ev(x, env)
            b = self.truth_or_sym(v)
            if isinstance(b, bool):
                if acc is None and b != isand:
                    return v
                if acc is not None and b != isand:
                    return Arr(T.bconst(not isand), "b", False, False, True)
            else:
                acc = b if acc is None else (T.band(acc, b) if isand else T.bor(acc, b))
        if acc is not None:
            return Arr(acc, "b", False, False, True)
        return v

    def e_Compare(self, e, env):
        x = self.ev(e.left, env)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            y = self.ev(r, env)
            c = self.compare(op, x, y)
            if acc is None:
                acc = c
            else:
                b = self.truth_or_sym(acc)
                if b is False:
                    return acc
                if b is True:
                    acc = c
                else:
                    c2 = self.truth_or_sym(c)
                    acc = Arr(T.band(b, T.bconst(c2) if isinstance(c2, bool) else c2), "b", False, False, True)
            x = y
        return acc

    def compare(self, op, x, y):
        n = type(op).__name__
        if n in ("Is", "IsNot"):
            r = (x is y) or (isinstance(x, (bool, int, str)) and isinstance(y, type(x)) and x == y) or (isinstance(x, Ext) and x == y)
            return r if n == "Is" else not r
        if n in ("In", "NotIn"):
            if isinstance(y, (str,)):
                r = x in y
            elif isinstance(y, dict) or isinstance(y, set):
                r = hashable(x) in y
            elif isinstance(y, (list, tuple, range)):
                r = False
                for t in y:
                    c = self.truth_or_sym(self.compare(ast.Eq(), x, t))
                    if c is True:
                        r = True
                        break
                    if not isinstance(c, bool):
                        r = c if r is False else T.bor(r, c)
                if not isinstance(r, bool):
                    r = T.bnot(r) if n == "NotIn" else r
                    return Arr(r, "b", False, False, True)
            elif isinstance(y, Arr):
                r = M.aany(M.compare("==", y, x))
                return r if n == "In" else M.invert(r)
            else:
                raise Unsupported("membership in %s" % describe(y))
            return r if n == "In" else not r
        s = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[n]
        if isinstance(x, (bool, int)) and isinstance(y, (bool, int)):
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[s]
        num = lambda v: isinstance(v, (Arr, bool, int, Fraction))
        if num(x) and num(y):
            return M.compare(s, x, y)
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            if s not in ("==", "!="):
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[s]
            if type(x) is not type(y) or len(x) != len(y):
                r = False
            else:
                r = all(self.truth(self.compare(ast.Eq(), a, b)) for a, b in zip(x, y))
            return r if s == "==" else not r
        if num(x) and isinstance(y, (list, tuple)) and isinstance(x, Arr) and x.ndim:
            return M.compare(s, x, A(y))
        if s == "==":
            return self.same(x, y)
        if s == "!=":
            return not self.same(x, y)
        raise PyRaise("TypeError", "unordered comparison")

    def same(self, x, y):
        if isinstance(x, (str, M.DT)) and isinstance(y, (str, M.DT)):
            return x == y
        d = lambda v: M.to_dt(v) if isinstance(v, (M.DT, Ext)) and (not isinstance(v, Ext) or v.dtname) else None
        a, b = d(x), d(y)
        if a is not None and b is not None:
            return a == b
        if x is None or y is None:
            return x is y
        if isinstance(x, (Func, Cls, Ext, Builtin)) or isinstance(y, (Func, Cls, Ext, Builtin)):
            return x is y or (isinstance(x, Ext) and x == y)
        if isinstance(x, (dict, set)) and isinstance(y, (dict, set)):
            return x == y
        if isinstance(x, str) != isinstance(y, str):
            return False
        return x is y

    def e_IfExp(self, e, env):
        c = self.truth_or_sym(self.ev(e.test, env))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, env)
        return self.merge(c, self.ev(e.body, env), self.ev(e.orelse, env))

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        en = env
        while en.kind == "comp":
            en = en.parent
        self.bind(en, e.target.id, v)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, env)
                if isinstance(x, (int, str, bool)) or x is None:
                    out.append(str(x))
                else:
                    out.append("<value>")
        return "".join(out)

    def e_FormattedValue(self, e, env):
        return "<value>"

    def comp(self, e, env, emit):
        def rec(k, cur):
            if k == len(e.generators):
                emit(cur)
                return
            g = e.generators[k]
            for v in self.iterate(self.ev(g.iter, cur)):
                inner = Env(cur, env.module, None, None, "comp")
                self.assign(g.target, v, inner)
                if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                    rec(k + 1, inner)
        rec(0, env)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e, env, lambda c: out.append(self.ev(e.elt, c)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return set(hashable(v) for v in self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        out = {}

        def em(c):
            out[hashable(self.ev(e.key, c))] = self.ev(e.value, c)
        self.comp(e, env, em)
        return out

    def e_Slice(self, e, env):
        g = lambda x: None if x is None else self.ev(x, env)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def ev_index(self, e, env):
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x, env) if not isinstance(x, ast.Starred) else x for x in e.elts) \
                if not any(isinstance(x, ast.Starred) for x in e.elts) else tuple(self.seq(e.elts, env))
        return self.ev(e, env)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, (Ext, Cls)):
            return o
        return self.getitem(o, self.ev_index(e.slice, env))

    def getitem(self, o, i):
        if isinstance(o, Arr):
            def norm(v):
                if isinstance(v, bool):
                    raise Unsupported("boolean index")
                if isinstance(v, range):
                    return M.array(list(v))
                return v
            i = tuple(norm(v) for v in i) if isinstance(i, tuple) else norm(i)
            return M.getitem(o, i)
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, slice):
                return o[M.cslice(i)]
            if isinstance(i, (int, bool)):
                k = int(i)
            elif isinstance(i, Arr):
                k = M.concrete_int(i)
            else:
                raise PyRaise("TypeError", "sequence index %s" % describe(i))
            if not -len(o) <= k < len(o):
                raise PyRaise("IndexError", "sequence index %d out of range" % k)
            return o[k]
        if isinstance(o, dict):
            k = hashable(i)
            if k not in o:
                raise PyRaise("KeyError", str(k))
            return o[k]
        if isinstance(o, At):
            return AtIdx(o.x, i)
        if isinstance(o, Obj):
            if o.cls.fields is not None:
                return self.getitem(tuple(o.attrs[k] for k in o.cls.fields), i)
            f, _ = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(Bound(f, o), [i], {})
        if isinstance(o, (int, bool)) or o is None:
            raise PyRaise("TypeError", "object is not subscriptable")
        raise Unsupported("subscript of %s" % describe(o))

    def iterate(self, v):
        if isinstance(v, Arr):
            return list(v)
        if isinstance(v, (list, tuple, range, str)):
            return v
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, set):
            return sorted(v, key=repr)
        if isinstance(v, Obj) and v.cls.fields is not None:
            return [v.attrs[k] for k in v.cls.fields]
        if v is None or isinstance(v, (int, Func)):
            raise PyRaise("TypeError", "%s is not iterable" % describe(v))
        raise Unsupported("iteration over %s" % describe(v))

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def getattr(self, o, k):
        if isinstance(o, Ext):
            return self.lib.ext(o.name + "." + k)
        if isinstance(o, Arr):
            return self.lib.arr_attr(o, k)
        if isinstance(o, Module):
            if k in o.env.vars:
                return o.env.vars[k]
            if self.module_path(o.name + "." + k):
                return self.module(o.name + "." + k)
            if k == "__name__":
                return o.name
            raise PyRaise("AttributeError", "module %s has no attribute %s" % (o.name, k))
        if isinstance(o, Obj):
            if k in o.attrs:
                return o.attrs[k]
            f, c = o.cls.lookup(k)
            if c is not None:
                return self.bind_method(f, o)
            if k == "__class__":
                return o.cls
            if k == "__dict__":
                return o.attrs
            if o.cls.fields is not None and k in ("_replace", "_asdict", "_fields"):
                return self.nt_method(o, k)
            g, _ = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(Bound(g, o), [k], {})
            raise PyRaise("AttributeError", "%s has no attribute %s" % (o.cls.name, k))
        if isinstance(o, Super):
            mro = o.obj.cls.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if k in c.vars:
                    return self.bind_method(c.vars[k], o.obj)
            if k == "__init__":
                return Builtin("object.__init__", lambda a, kw: None)
            raise PyRaise("AttributeError", k)
        if isinstance(o, Cls):
            f, c = o.lookup(k)
            if c is not None:
                if isinstance(f, tuple) and f and f[0] == "static":
                    return f[1]
                if isinstance(f, tuple) and f and f[0] == "classm":
                    return Bound(f[1], o)
                return f
            if k == "__name__":
                return o.name
            raise PyRaise("AttributeError", "%s has no attribute %s" % (o.name, k))
        if isinstance(o, CustomJVP) and k == "defjvp":
            def dj(a, kw, o=o):
                o.jvp = a[0]
                return a[0]
            return Builtin("defjvp", dj)
        if isinstance(o, CustomJVP) and k == "defjvps":
            def djs(a, kw, o=o):
                o.jvp = ("jvps", list(a))
                return None
            return Builtin("defjvps", djs)
        if isinstance(o, (Jit, CustomJVP, Ckpt, Vmap)):
            if k in ("__wrapped__", "fun"):
                return o.fn
            if k in ("__name__", "__doc__"):
                return self.getattr(o.fn, k)
        if isinstance(o, Partial):
            if k == "func":
                return o.fn
            if k == "args":
                return tuple(o.args)
            if k == "keywords":
                return dict(o.kw)
        if isinstance(o, Func):
            if k in o.attrs:
                return o.attrs[k]
            if k in ("__name__", "__qualname__"):
                return o.name
            if k == "__doc__":
                return ""
            raise PyRaise("AttributeError", k)
        if isinstance(o, (list, dict, str, tuple, set)):
            return self.lib.container_attr(o, k)
        if isinstance(o, (bool, int)):
            return self.lib.arr_attr(M.lit(o), k)
        if isinstance(o, AtIdx):
            return Builtin("at." + k, lambda a, kw, o=o, k=k: self.lib.at_update(o, k, a, kw))
        if isinstance(o, M.DT):
            if k in ("kind", "name"):
                return getattr(o, k)
            if k == "itemsize":
                return 8
            if k == "type":
                return o
        if isinstance(o, slice):
            return getattr(o, k)
        if isinstance(o, Exc) and k == "args":
            return tuple(o.args)
        if o is None:
            raise PyRaise("AttributeError", "None has no attribute %s" % k)
        if isinstance(o, Opaque) and o.name in ("finfo", "iinfo"):
            v = {"eps": Fraction(1, 2 ** 52), "tiny": Fraction(1, 2 ** 1022), "smallest_normal": Fraction(1, 2 ** 1022), "max": Fraction(2 ** 1024 - 2 ** 971), "min": Fraction(2 ** 971 - 2 ** 1024),
                 "resolution": Fraction(1, 10 ** 15), "bits": 64}
            if k in v:
                return Arr(T.num(v[k]), "f", True, False, True)
        if isinstance(o, Opaque):
            return Opaque(o.name + "." + k)
        raise Unsupported("attribute %s of %s" % (k, describe(o)))

    def nt_method(self, o, k):
        if k == "_fields":
            return tuple(o.cls.fields)
        if k == "_asdict":
            return Builtin(k, lambda a, kw: dict(o.attrs))

        def rep(a, kw):
            n = Obj(o.cls)
            n.attrs = dict(o.attrs)
            n.attrs.update(kw)
            return n
        return Builtin(k, rep)

    def bind_method(self, f, o):
        if isinstance(f, tuple) and f:
            if f[0] == "property":
                return self.call(Bound(f[1], o), [], {})
            if f[0] == "static":
                return f[1]
            if f[0] == "classm":
                return Bound(f[1], o.cls)
        if isinstance(f, (Func, Jit, CustomJVP, Ckpt)):
            return Bound(f, o)
        return f

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        if isinstance(f, Builtin) and f.name == "super" and not e.args:
            fn = env
            while fn.kind == "comp" or not isinstance(fn.func, Func):
                fn = fn.parent
            func = fn.func
            return Super(func.owner, fn.vars[func.node.args.args[0].arg])
        args = self.seq(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, dict):
                    raise Unsupported("** of non-dict")
                for a, b in d.items():
                    if a in kw:
                        raise PyRaise("TypeError", "multiple values for keyword %s" % a)
                    kw[a] = b
            else:
                if k.arg in kw:
                    raise PyRaise("TypeError", "multiple values for keyword %s" % k.arg)
                kw[k.arg] = self.ev(k.value, env)
        self.loc(e, env)
        saved = T.CUR_LOC[0]
        self.calls += 1
        r = self.call(f, args, kw)
        T.CUR_LOC[0] = saved
        return r

    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            return f.f(args, kw)
        if isinstance(f, Ext):
            return self.lib.call_ext(f, args, kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Jit):
            return self.call_jit(f, args, kw)
        if isinstance(f, Vmap):
            return self.call_vmap(f, args, kw)
        if isinstance(f, CustomJVP):
            nd = set(f.nondiff)
            a2 = [a if i in nd or isinstance(a, (Func, Partial)) else mark_traced(a, "argument of a custom_jvp function") for i, a in enumerate(args)]
            k2 = kw
            inner = f.fn
            while isinstance(inner, (Jit, Ckpt)):
                inner = inner.fn
            if isinstance(inner, Func) and kw:
                names = [p.arg for p in inner.node.args.posonlyargs + inner.node.args.args]
                k2 = {k: (v if k in names and names.index(k) in nd else mark_traced(v)) for k, v in kw.items()}
            return self.traced(lambda: self.call(f.fn, a2, k2))
        if isinstance(f, Ckpt):
            a2 = [a if isinstance(a, (Func, Partial)) else mark_traced(a, "argument of a checkpointed function") for a in args]
            return self.traced(lambda: self.call(f.fn, a2, kw))
        if isinstance(f, Deriv):
            return self.lib.call_deriv(f, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcType):
            return Exc(f.name, args)
        if isinstance(f, Obj):
            g, _ = f.cls.lookup("__call__")
            if g is not None:
                return self.call(Bound(g, f), args, kw)
            raise PyRaise("TypeError", "object is not callable")
        if isinstance(f, M.DT):
            return M.cast(A(args[0]), f)
        if isinstance(f, Opaque):
            return Opaque(f.name + "()")
        if f is None or isinstance(f, (Arr, int, str, tuple, list, dict)):
            raise PyRaise("TypeError", "%s is not callable" % describe(f))
        raise Unsupported("call of %s" % describe(f))

    def traced(self, th):
        M.TRACING[0] += 1
        try:
            return th()
        finally:
            M.TRACING[0] -= 1

    def instantiate(self, c, args, kw):
        h = self.intercepts.get(c.key)
        if h is not None:
            return h(args, kw)
        o = Obj(c)
        if c.fields is not None:
            fs = c.fields
            for k, v in zip(fs, args):
                o.attrs[k] = v
            o.attrs.update(kw)
            for k in fs:
                if k not in o.attrs:
                    d, cc = c.lookup(k)
                    if cc is None:
                        raise PyRaise("TypeError", "missing field %s" % k)
                    o.attrs[k] = d
            return o
        init, _ = c.lookup("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            raise PyRaise("TypeError", "%s() takes no arguments" % c.name)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos]
        v = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)))
        for n, x in zip(names, args):
            v[n] = x
        if a.vararg is not None:
            v[a.vararg.arg] = tuple(args[len(names):])
        kwo = [p.arg for p in a.kwonlyargs]
        extra = {}
        ponly = {p.arg for p in a.posonlyargs}
        for k, x in kw.items():
            if k in names and k not in ponly or k in kwo:
                if k in v:
                    raise PyRaise("TypeError", "%s() got multiple values for argument %s" % (f.name, k))
                v[k] = x
            elif a.kwarg is not None:
                extra[k] = x
            else:
                raise PyRaise("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, k))
        if a.kwarg is not None:
            v[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in v:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise("TypeError", "%s() missing argument %s" % (f.name, n))
                v[n] = f.defaults[j]
        for n in kwo:
            if n not in v:
                if n not in f.kwdefaults:
                    raise PyRaise("TypeError", "%s() missing keyword argument %s" % (f.name, n))
                v[n] = f.kwdefaults[n]
        return v

    def call_func(self, f, args, kw):
        v = self.bind_args(f, args, kw)
        h = self.intercepts.get(f.key)
        if h is not None:
            fv = {}
            a = f.node.args
            for k, x in v.items():
                if a.kwarg is not None and k == a.kwarg.arg:
                    fv.update(x)
                else:
                    fv[k] = x
            return h(fv)
        if self.call_hook is not None:
            self.call_hook(f, v)
        if len(self.stack) > 150:
            raise Unsupported("recursion")
        env = Env(f.env, f.module, local_names(f.node)[0], f)
        env.vars.update(v)
        self.visited[f.key] = self.visited.get(f.key, 0) + 1
        self.stack.append(f.qualname)
        saved = T.CUR_LOC[0]
        try:
            if isinstance(f.node, ast.Lambda):
                self.loc(f.node, env)
                return self.ev(f.node.body, env)
            try:
                self.exec_block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            T.CUR_LOC[0] = saved

    # ---------------------------------------------------------------- jax transforms
    def inner_func(self, f):
        shift = 0
        while not isinstance(f, Func):
            if isinstance(f, Bound):
                shift += 1
                f = f.fn
            elif isinstance(f, (Jit, CustomJVP, Ckpt, Vmap)):
                f = f.fn
            elif isinstance(f, Partial):
                shift += len(f.args)
                f = f.fn
            else:
                return None, 0
        return f, shift

    def call_jit(self, f, args, kw):
        names, nums = set(f.names), set(f.nums)
        inner, shift = self.inner_func(f.fn)
        pn = []
        if inner is not None:
            a = inner.node.args
            pn = [p.arg for p in a.posonlyargs + a.args][shift:]
            allp = set(pn) | {p.arg for p in a.kwonlyargs}
            h = self.intercepts.get(inner.key)
            for i in list(nums):
                k = i if i >= 0 else len(pn) + i
                if 0 <= k < len(pn):
                    names.add(pn[k])
            for k in list(names):
                if k in pn:
                    nums.add(pn.index(k))
                elif k not in allp and a.kwarg is None:
                    raise TraceError("ValueError", "jit of %s declares unknown static argument %s" % (inner.name, k))
            self.jitsites[inner.key] = (sorted(names), T.CUR_LOC[0])
        who = inner.name if inner is not None else describe(f.fn)

        def conv(v, name, static):
            if static:
                for leaf in tree_leaves(v):
                    if isinstance(leaf, Arr) and leaf.traced:
                        raise TraceError("ConcretizationTypeError", "runtime data passed as compile-time argument %s of %s" % (name, who))
                    if isinstance(leaf, Arr) and not leaf.weak and leaf.ndim >= 0 and not leaf.isnp:
                        raise TraceError("ValueError", "unhashable array passed as compile-time argument %s of %s" % (name, who))
                if isinstance(v, (list, dict)):
                    raise TraceError("ValueError", "unhashable value passed as compile-time argument %s of %s" % (name, who))
                return v
            try:
                return mark_traced(v, "argument %s" % name)
            except TraceError as e:
                raise TraceError("TypeError", "non-array value passed as runtime argument %s of compiled %s (not declared static)" % (name, who))
        a2 = [conv(v, pn[i] if i < len(pn) else str(i), i in nums) for i, v in enumerate(args)]
        k2 = {k: conv(v, k, k in names) for k, v in kw.items()}
        return self.traced(lambda: self.call(f.fn, a2, k2))

    def call_vmap(self, f, args, kw):
        ax = f.in_axes
        axes = list(ax) if isinstance(ax, (tuple, list)) else [ax] * len(args)
        if len(axes) != len(args):
            raise PyRaise("ValueError", "vmap in_axes has %d entries for %d arguments" % (len(axes), len(args)))
        n = None

        def size(x, a):
            nonlocal n
            if a is None:
                return
            for l, b in zip(tree_leaves(x), tree_leaves(a) if isinstance(a, (tuple, list)) else [a] * len(tree_leaves(x))):
                l = A(l)
                if l.ndim == 0:
                    raise PyRaise("ValueError", "vmap over a scalar")
                k = l.shape[b]
                if n is not None and n != k:
                    raise PyRaise("ValueError", "vmap got inconsistent sizes %d and %d" % (n, k))
                n = k
        for x, a in zip(args, axes):
            size(x, a)
        for x in kw.values():
            size(x, 0)
        if n is None:
            raise PyRaise("ValueError", "vmap without mapped argument")

        def pick(x, a, i):
            if a is None:
                return x
            if isinstance(a, (tuple, list)):
                return type(x)(pick(p, q, i) for p, q in zip(x, a))

            def g(l):
                l = A(l)
                r = M.like(M.wrap(np.take(l.a, i, axis=a) if l.shape[a] else blank(l, a)), l)
                r.traced = True
                r.isnp = False
                r.weak = False
                return r
            return tree_map(g, x)
        outs = []
        for i in range(n or 1):         # an empty batch is walked once, for the shape of the result
            outs.append(self.call(f.fn, [pick(x, a, i) for x, a in zip(args, axes)], {k: pick(v, 0, i) for k, v in kw.items()}))
        tr = any(isinstance(l, Arr) and l.traced for x in list(args) + list(kw.values()) for l in tree_leaves(x))
        r = self.stack_trees(outs, f.out_axes, tr or M.TRACING[0] > 0)
        if n == 0:
            if f.out_axes != 0:
                raise Unsupported("empty batch along another axis")
            r = tree_map(lambda l: M.like(A(l).a[:0], A(l)), r)
        return r

    def stack_trees(self, outs, axis=0, traced=None):
        if isinstance(axis, (tuple, list)):
            return tuple(self.stack_trees([o[i] for o in outs], a, traced) for i, a in enumerate(axis))

        def st(*ls):
            r = M.stack([A(l) for l in ls], axis=axis)
            r.weak = False
            r.isnp = False
            r.traced = bool(traced) if traced is not None else True
            return r
        return tree_map(st, *outs)


def blank(l, axis=0):
    """an arbitrary element for a walk along an empty axis"""
    sh = l.shape[:axis] + l.shape[axis + 1:]
    o = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        o[i] = T.bsym("empty") if l.dt == "b" else T.sym("empty", l.dt != "c")
    return o if sh else o[()]


def hashable(v):
    if isinstance(v, Arr):
        if v.traced:
            raise TraceError("TypeError", "runtime data used as a dictionary key")
        if v.size == 1:
            c = T.cval(v.item())
            if c is not None:
                return int(c) if c.denominator == 1 else c
        raise Unsupported("array as key")
    if isinstance(v, list):
        raise PyRaise("TypeError", "unhashable")
    if isinstance(v, tuple):
        return tuple(hashable(x) for x in v)
    return v


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%", ast.FloorDiv: "//",
       ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
