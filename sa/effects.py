"""Effect analysis over the syntax trees of a package.

A flow-sensitive alias analysis records, for every function, where the objects it modifies come from: its own
parameters, default arguments, module-level names, variables of enclosing functions, attributes of self.  Summaries
(parameters modified, parameters returned) are propagated over the call graph until nothing changes.  In addition every
name that resolves to a source of outside information (clock, environment, files, global random state) is reported where
it is used."""
import ast
import os

FRESH = frozenset()

MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "sort", "reverse", "add", "discard",
            "fill", "resize", "put", "itemset", "setflags", "partition", "appendleft", "extendleft", "popleft", "rotate",
            "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__", "__setattr__", "move_to_end",
            "setfield", "setdiag"}
VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "get", "items", "values", "keys", "setdefault", "pop", "diagonal", "__getitem__"}
NP_VIEWS = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose", "swapaxes", "moveaxis", "rollaxis",
            "expand_dims", "broadcast_to", "broadcast_arrays", "real", "imag", "split", "array_split", "hsplit", "vsplit", "flip", "fliplr", "flipud", "rot90", "diagonal",
            "ascontiguousarray", "asfortranarray", "require", "asfarray"}
NP_WRITES = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis"}
ALIAS_BUILTINS = {"zip", "enumerate", "reversed", "iter", "next", "filter", "vars", "getattr", "max", "min"}
STATEFUL_MAKERS = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random", "itertools.count", "itertools.cycle",
                   "builtins.iter"}
CLOCK = ("time.", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "timeit.")
CLOCK_OK = {"time.sleep", "time.struct_time"}
ENV = ("os.environ", "os.getenv", "os.getcwd", "os.getpid", "os.getppid", "os.cpu_count", "os.uname", "os.listdir", "os.stat", "os.scandir", "os.walk", "os.urandom", "os.getlogin",
       "os.path.exists", "os.path.isfile", "os.path.getmtime", "os.path.getsize", "os.putenv", "os.open", "os.read", "socket.", "platform.", "getpass.", "sys.argv", "sys.stdin", "sys.getsizeof",
       "sys.flags", "locale.", "shelve.", "sqlite3.", "tempfile.", "subprocess.", "urllib.", "requests.", "glob.", "resource.", "psutil.", "threading.get_ident", "multiprocessing.", "uuid.", "secrets.")
FILES = ("builtins.open", "builtins.input", "io.open", "pathlib.Path", "numpy.load", "numpy.loadtxt", "numpy.genfromtxt", "numpy.fromfile", "numpy.memmap", "jax.numpy.load", "pickle.load",
         "json.load", "importlib.resources", "pkgutil.get_data", "numpy.DataSource", "os.fdopen")
FILES_EXACT = {"json.load", "pickle.load", "numpy.load"}
GLOBAL_STATE = ("numpy.seterr", "numpy.set_printoptions", "numpy.random.seed", "jax.config.update", "jax.config.", "warnings.filterwarnings", "warnings.simplefilter",
                "sys.setrecursionlimit", "gc.", "signal.", "atexit.", "faulthandler.", "jax.enable_x64")
RANDOM_OK = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.SeedSequence", "numpy.random.PCG64",
             "numpy.random.Philox", "numpy.random.MT19937", "numpy.random.SFC64", "numpy.random.BitGenerator", "random.Random"}
SEEDED = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.Philox", "numpy.random.MT19937", "numpy.random.SFC64",
          "random.Random", "jax.random.PRNGKey", "jax.random.key"}
SCALARS = {"int", "float", "complex", "bool", "str", "bytes", "tuple"}


class Finding:
    def __init__(self, rule, where, line, text):
        self.rule, self.where, self.line, self.text = rule, where, line, text

    def __repr__(self):
        return "%s:%s %s: %s" % (self.where, self.line, self.rule, self.text)


class Fn:
    def __init__(self, mod, qual, node, cls=None, outer=None):
        self.mod, self.qual, self.node, self.cls, self.outer = mod, qual, node, cls, outer
        self.id = mod.name + ":" + qual
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.params = self.pos + self.kwonly
        self.nested = {}
        self.mut = {}          # origin -> (line, text)
        self.ret = set()       # origins returned
        self.vars = {}         # name -> every origin it ever holds
        self.selfwrites = {}   # attribute -> line
        self.binds_outer = {}  # nonlocal / global rebinding
        self.static = isinstance(node, ast.FunctionDef) and any(ast.unparse(d) in ("staticmethod",) for d in node.decorator_list)
        self.scalar = set()
        defaults = dict(zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults))
        defaults.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.defaults = defaults
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None and ast.unparse(x.annotation).strip("'\"") in SCALARS:
                self.scalar.add(x.arg)
            d = defaults.get(x.arg)
            if isinstance(d, ast.Constant) and d.value is not None or isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
                self.scalar.add(x.arg)

    @property
    def is_method(self):
        return self.cls is not None and self.outer is None and not self.static

    @property
    def selfname(self):
        return self.pos[0] if self.is_method and self.pos else None

    @property
    def public(self):
        if self.outer is not None:
            return False
        n = self.node.name if isinstance(self.node, ast.FunctionDef) else "_"
        if self.cls is not None:
            return (not n.startswith("_") or n in ("__init__", "__call__")) and not self.cls.startswith("_")
        return not n.startswith("_")


class Module:
    def __init__(self, name, path, tree, pkg):
        self.name, self.path, self.tree, self.pkg = name, path, tree, pkg
        self.imports, self.stars, self.fns, self.classes, self.names, self.makers = {}, [], {}, {}, {}, {}


class Package:
    def __init__(self, sources, root, api=None):
        """sources: {dotted module name: (path, text)}; api: names ("module:qualname") documented for callers.  With an
        api, a function outside it that is only called inside its own module is a helper whatever its name."""
        self.root, self.api = root, api
        self.mods, self.fns, self.findings, self.notes = {}, {}, [], {"calls": 0, "resolved": 0, "writes": 0, "names": 0}
        for name, (path, text) in sources.items():
            self.mods[name] = Module(name, path, ast.parse(text), path.endswith("__init__.py"))
        for m in self.mods.values():
            self.collect(m)
        self.jitted = {f.id for f in self.fns.values() if self.is_jit(f)}
        self.import_time = set()
        for m in self.mods.values():
            for n in self.toplevel(m):
                if isinstance(n, ast.Call):
                    f = self.resolve_fn(m, None, n.func)
                    if f is not None:
                        self.import_time.add(f.id)
            for f in self.fns.values():
                if f.mod is m and isinstance(f.node, ast.FunctionDef):
                    for d in f.node.decorator_list:
                        g = self.resolve_fn(m, None, d.func if isinstance(d, ast.Call) else d)
                        if g is not None:
                            self.import_time.add(g.id)

    # -------------------------------------------------------------- collection
    def toplevel(self, m):
        """expressions evaluated at import"""
        todo = list(m.tree.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                todo += getattr(n, "decorator_list", [])
                continue
            yield n
            todo += list(ast.iter_child_nodes(n))

    def absname(self, m, node):
        if not node.level:
            return node.module or ""
        parts = m.name.split(".")
        if not m.pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def collect(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = self.absname(m, n)
                for a in n.names:
                    if a.name == "*":
                        m.stars.append(base)
                    else:
                        m.imports[a.asname or a.name] = base + "." + a.name
        for s in m.tree.body:
            self.collect_def(m, s, None, None, "")
        for s in m.tree.body:
            for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    m.names[n.id] = n
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.makers[t.id] = s.value.func

    def collect_def(self, m, s, cls, outer, prefix):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Fn(m, prefix + s.name, s, cls, outer)
            self.fns[f.id] = f
            if outer is not None:
                outer.nested[s.name] = f
            elif cls is not None:
                m.classes[cls]["methods"][s.name] = f
            else:
                m.fns[s.name] = f
            self.collect_nested(m, f)
        elif isinstance(s, ast.ClassDef) and outer is None and cls is None:
            m.classes[s.name] = {"node": s, "methods": {}, "attrs": set(), "bases": s.bases}
            for b in s.body:
                if isinstance(b, (ast.Assign, ast.AnnAssign)):
                    for t in (b.targets if isinstance(b, ast.Assign) else [b.target]):
                        if isinstance(t, ast.Name):
                            m.classes[s.name]["attrs"].add(t.id)
                self.collect_def(m, b, s.name, None, s.name + ".")
        elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)) and outer is None:
            for b in ast.iter_child_nodes(s):
                if isinstance(b, ast.stmt):
                    self.collect_def(m, b, cls, None, prefix)

    def collect_nested(self, m, f):
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.collect_def(m, c, None, f, f.qual + ".")
                elif isinstance(c, ast.Lambda):
                    g = Fn(m, f.qual + ".<lambda:%d:%d>" % (c.lineno, c.col_offset), c, None, f)
                    self.fns[g.id] = g
                    f.nested[("lambda", c.lineno, c.col_offset)] = g
                    self.collect_nested(m, g)
                else:
                    walk(c)
        walk(f.node)

    # -------------------------------------------------------------- names
    def dotted(self, m, fn, e):
        """external dotted name of an expression, through the import table"""
        if isinstance(e, ast.Attribute):
            b = self.dotted(m, fn, e.value)
            return None if b is None else b + "." + e.attr
        if isinstance(e, ast.Name):
            f = fn
            while f is not None:
                if e.id in f.vars or e.id in f.params or e.id in (f.vararg, f.kwarg) or e.id in f.nested:
                    return None
                f = f.outer
            if e.id in m.names or e.id in m.fns or e.id in m.classes:
                return None
            if e.id in m.imports:
                return m.imports[e.id]
            for s in m.stars:
                k = self.mods.get(s)
                if k is not None and (e.id in k.fns or e.id in k.names or e.id in k.classes):
                    return s + "." + e.id
                if k is not None and e.id in k.imports:
                    return k.imports[e.id]
            import builtins
            if hasattr(builtins, e.id):
                return "builtins." + e.id
        return None

    def find(self, dotted):
        """package function or class behind a dotted name"""
        for _ in range(5):
            mod, _, n = dotted.rpartition(".")
            k = self.mods.get(mod)
            if k is None:
                return None
            if n in k.fns:
                return k.fns[n]
            if n in k.classes:
                return ("class", k, n)
            if n in k.imports:
                dotted = k.imports[n]
                continue
            return None
        return None

    def method(self, m, cls, name, depth=0):
        c = m.classes.get(cls)
        if c is None or depth > 6:
            return None
        if name in c["methods"]:
            return c["methods"][name]
        for b in c["bases"]:
            if isinstance(b, ast.Name) and b.id in m.classes:
                r = self.method(m, b.id, name, depth + 1)
            else:
                d = self.dotted(m, None, b)
                t = self.find(d) if d else None
                r = self.method(t[1], t[2], name, depth + 1) if isinstance(t, tuple) else None
            if r is not None:
                return r
        return None

    def resolve_fn(self, m, fn, e):
        """package function called by this expression, or None"""
        if isinstance(e, ast.Lambda) and fn is not None:
            return fn.nested.get(("lambda", e.lineno, e.col_offset))
        if isinstance(e, ast.Name):
            f = fn
            while f is not None:
                if e.id in f.nested:
                    return f.nested[e.id]
                if e.id in f.vars or e.id in f.params:
                    return None
                f = f.outer
            if e.id in m.fns:
                return m.fns[e.id]
            if e.id in m.classes:
                return self.method(m, e.id, "__init__")
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            f = fn
            while f is not None and f.cls is None:
                f = f.outer
            if f is not None and f.is_method and e.value.id == f.selfname:
                return self.method(m, f.cls, e.attr)
        d = self.dotted(m, fn, e)
        if d is not None:
            t = self.find(d)
            if isinstance(t, tuple):
                return self.method(t[1], t[2], "__init__")
            return t
        return None

    def is_jit(self, f):
        """is every call of this function traced (decorated with jit, or rebound to its jitted version)?"""
        if not isinstance(f.node, ast.FunctionDef):
            return False

        def jits(e, depth=0):
            for n in ast.walk(e):
                if isinstance(n, (ast.Name, ast.Attribute)) and self.dotted(f.mod, None, n) in ("jax.jit", "jax.pjit", "jax.experimental.pjit.pjit"):
                    return True
                if isinstance(n, ast.Name) and depth < 3:
                    vs = [s.value for s in f.mod.tree.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == n.id]
                    if len(vs) == 1 and n.id != f.node.name and jits(vs[0], depth + 1):
                        return True
            return False

        if any(jits(d) for d in f.node.decorator_list):
            return True
        if f.outer is not None or f.cls is not None:
            return False
        for s in f.mod.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == f.node.name and isinstance(s.value, ast.Call):
                c = s.value
                if len(c.args) == 1 and isinstance(c.args[0], ast.Name) and c.args[0].id == f.node.name and jits(c.func):
                    return True
                if c.args and isinstance(c.args[0], ast.Name) and c.args[0].id == f.node.name and self.dotted(f.mod, None, c.func) == "jax.jit":
                    return True
        return False

    # -------------------------------------------------------------- analysis
    def run(self):
        self.attr_origins = {}
        for rnd in range(30):
            before = self.state()
            for f in self.fns.values():
                if f.outer is None:
                    Walk(self, f).function()
            if self.state() == before:
                break
        self.report()
        for m in self.mods.values():
            self.outside(m)
        return self.findings

    def state(self):
        return (sum(len(f.mut) for f in self.fns.values()), sum(len(f.ret) for f in self.fns.values()), sum(len(v) for f in self.fns.values() for v in f.vars.values()),
                sum(len(v) for v in self.attr_origins.values()), sum(len(f.selfwrites) for f in self.fns.values()))

    def add(self, rule, f, line, text):
        self.findings.append(Finding(rule, "%s in %s" % (f.mod.path, f.qual) if isinstance(f, Fn) else f.path, line, text))

    def init_only(self):
        """methods that run during construction only"""
        callers = {}
        for f in self.fns.values():
            top = f
            while top.outer is not None:
                top = top.outer
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    g = self.resolve_fn(f.mod, f, n.func)
                    if g is not None and g.is_method and isinstance(n.func, ast.Attribute):
                        # subclasses may override: every method of that name in the package
                        for h in self.fns.values():
                            if h.is_method and h.node.name == g.node.name:
                                callers.setdefault(h.id, set()).add(top)
        ok = {f.id for f in self.fns.values() if f.is_method and f.node.name in ("__init__", "__post_init__", "__new__")}
        change = True
        while change:
            change = False
            for f in self.fns.values():
                if f.is_method and f.id not in ok and callers.get(f.id) and all(g.id in ok for g in callers[f.id]):
                    ok.add(f.id)
                    change = True
        return ok

    def report(self):
        init = self.init_only()
        seen = set()
        used = {f.id: set() for f in self.fns.values()}
        for f in self.fns.values():
            for n in ast.walk(f.node):
                g = self.resolve_fn(f.mod, f, n) if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) else None
                if g is not None and g is not f:
                    used[g.id].add(f.mod.name)
        helper = lambda f: self.api is not None and f.id not in self.api and used[f.id] == {f.mod.name}
        for f in self.fns.values():
            for attr, line in f.selfwrites.items():
                top = f
                while top.outer is not None:
                    top = top.outer
                if top.id not in init:
                    self.add("state", f, line, "attribute %s of the object is modified by a method called after construction" % attr)
            for name, line in f.binds_outer.items():
                if name[0] == "global":
                    self.add("module data", f, line, "module-level name %s is rebound" % name[1])
                elif name[1] in self.import_time:
                    self.add("state", f, line, "variable %s of a function run at import is rebound" % name[2])
            for o, (line, text) in f.mut.items():
                key = (f.id, o, line)
                if key in seen:
                    continue
                seen.add(key)
                if o[0] == "global":
                    self.add("module data", f, line, "%s modifies module-level %s" % (text, o[2]))
                elif o[0] == "class":
                    self.add("module data", f, line, "%s modifies class-level %s.%s" % (text, o[1], o[2]))
                elif o[0] == "default":
                    self.add("default argument", f, line, "%s modifies the default value of parameter %s" % (text, o[2]))
                elif o[0] == "local" and o[1] in self.import_time and f.id != o[1]:
                    self.add("state", f, line, "%s modifies variable %s of a function run at import" % (text, o[2]))
                elif o[0] == "param" and o[1] == f.id and f.public and not helper(f) and f.id not in self.jitted and o[2] != f.selfname:
                    self.add("caller's data", f, line, "%s modifies the argument %s in place" % (text, o[2]))

    # -------------------------------------------------------------- outside information
    def outside(self, m):
        def owner(path):
            for n in reversed(path):
                for f in self.fns.values():
                    if f.node is n:
                        return f
            return None

        def visit(n, path, fn):
            for c in ast.iter_child_nodes(n):
                g = fn
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    g = self.by_node.get(id(c), fn)
                self.look(m, c, fn, n)
                visit(c, path + [c], g)
        self.by_node = {id(f.node): f for f in self.fns.values()}
        visit(m.tree, [m.tree], None)

    def look(self, m, e, fn, parent):
        if isinstance(e, ast.Call):
            d = self.dotted(m, fn, e.func)
            if d in SEEDED:
                args = list(e.args) + [k.value for k in e.keywords]
                if not args and d.startswith("jax"):
                    return
                if not args or not all(self.constant(m, fn, a) for a in args):
                    self.add("random seed", fn or m, e.lineno, "%s is not given a constant seed" % ast.unparse(e))
        if not isinstance(e, (ast.Name, ast.Attribute)) or isinstance(parent, ast.Attribute) and self.dotted(m, fn, parent) is not None:
            return
        d = self.dotted(m, fn, e)
        if d is None:
            return
        self.notes["names"] += 1
        at_import = fn is None
        hit = lambda table: any(d == t.rstrip(".") and not t.endswith(".") or d.startswith(t if t.endswith(".") else t + ".") for t in table)
        if hit(CLOCK) and d not in CLOCK_OK:
            self.add("clock", fn or m, e.lineno, "%s is read" % d)
        elif (d.startswith("random.") or d.startswith("numpy.random.")) and d not in RANDOM_OK:
            self.add("random state", fn or m, e.lineno, "%s draws on the global random state" % d)
        elif at_import:
            return
        elif d == "builtins.id" and isinstance(parent, ast.Call) and parent.func is e:
            self.add("object identity", fn, e.lineno, "id() differs between runs")
        elif hit(ENV):
            self.add("environment", fn, e.lineno, "%s is consulted" % d)
        elif d in FILES_EXACT or hit([x for x in FILES if x not in FILES_EXACT]):
            self.add("file", fn, e.lineno, "%s is used" % d)
        elif hit(GLOBAL_STATE):
            self.add("module data", fn, e.lineno, "%s changes global settings" % d)

    def constant(self, m, fn, e, depth=0):
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, (ast.UnaryOp,)):
            return self.constant(m, fn, e.operand, depth)
        if isinstance(e, ast.BinOp):
            return self.constant(m, fn, e.left, depth) and self.constant(m, fn, e.right, depth)
        if isinstance(e, (ast.Tuple, ast.List)):
            return all(self.constant(m, fn, x, depth) for x in e.elts)
        if isinstance(e, ast.Starred):
            return self.constant(m, fn, e.value, depth)
        if isinstance(e, ast.Name) and depth < 5:
            f = fn
            while f is not None:
                if e.id in f.params:
                    return True         # the caller chooses
                vals = [s.value for s in ast.walk(f.node) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets)]
                if vals:
                    return all(self.constant(m, f, v, depth + 1) for v in vals)
                f = f.outer
            if e.id in m.names:
                vals = [s.value for s in m.tree.body if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and
                        any(isinstance(t, ast.Name) and t.id == e.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))]
                return bool(vals) and all(self.constant(m, None, v, depth + 1) for v in vals)
            if e.id in m.imports:
                mod, _, n = m.imports[e.id].rpartition(".")
                k = self.mods.get(mod)
                return k is not None and self.constant(k, None, ast.Name(id=n, ctx=ast.Load()), depth + 1)
        if isinstance(e, ast.Call):
            d = self.dotted(m, fn, e.func)
            args = list(e.args) + [k.value for k in e.keywords]
            if d in ("builtins.int", "builtins.abs", "builtins.len", "builtins.float", "numpy.int64", "numpy.uint32", "numpy.int32", "jax.numpy.uint32", "builtins.max", "builtins.min") or d in SEEDED:
                return all(self.constant(m, fn, a, depth) for a in args) if args else d not in SEEDED
        return False


class Walk:
    def __init__(self, pkg, f):
        self.p, self.f, self.m = pkg, f, f.mod

    def function(self):
        f, p = self.f, self.p
        env = {}
        for n in f.params:
            o = set()
            if n == f.selfname:
                o = {("self",)}
            elif f.id in p.jitted or f.outer is not None:
                # tracers, or values handed over by jax transformations; direct calls are bound at the call
                o = {("param", f.id, n)} if f.outer is not None else set()
            else:
                o = {("param", f.id, n)}
            d = f.defaults.get(n)
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call):
                o = o | {("default", f.id, n)}
            elif isinstance(d, ast.Name) and d.id in self.m.names:
                o = o | {("global", self.m.name, d.id)}
            env[n] = frozenset(o)
        if f.kwarg:
            env[f.kwarg] = FRESH
        if f.vararg:
            env[f.vararg] = FRESH
        self.bound = set(env)
        self.globals_, self.nonlocals = set(), set()
        body = f.node.body if isinstance(f.node.body, list) else None
        if body is None:
            o = self.expr(f.node.body, env)
            f.ret |= o
        else:
            for s in self.own(f.node):
                if isinstance(s, ast.Global):
                    self.globals_ |= set(s.names)
                if isinstance(s, ast.Nonlocal):
                    self.nonlocals |= set(s.names)
                if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
                    self.bound.add(s.id)
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    pass
            self.bound -= self.globals_ | self.nonlocals
            for n in self.bound:
                f.vars.setdefault(n, set())
            self.stmts(body, env)

    def own(self, node):
        """nodes of this function without nested ones"""
        todo = list(ast.iter_child_nodes(node))
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            yield n
            todo += list(ast.iter_child_nodes(n))

    # ---- effects
    def mutate(self, origins, line, text):
        f = self.f
        self.p.notes["writes"] += 1
        for o in origins:
            if o == ("self",):
                continue
            if o[0] == "selfattr":
                f.selfwrites.setdefault(o[2], line)
                for q in self.p.attr_origins.get((o[1], o[2]), ()):
                    if q[0] in ("param", "global", "default"):
                        f.mut.setdefault(q, (line, text))
                        if q[0] == "param":
                            g = self.p.fns[q[1]]
                            g.mut.setdefault(q, (line, text + " (in %s)" % f.qual))
                if o[2] in self.class_only():
                    f.mut.setdefault(("class", self.cls(), o[2]), (line, text))
                continue
            if o[0] == "enc":
                g = self.p.fns[o[1]]
                for q in frozenset(g.vars.get(o[2], ())):
                    if q != o:
                        self.push(g, q, line, text)
                f.mut.setdefault(("local", o[1], o[2]), (line, text))
                continue
            self.push(f, o, line, text)

    def push(self, f, o, line, text):
        if o[0] == "enc":
            g = self.p.fns[o[1]]
            f.mut.setdefault(("local", o[1], o[2]), (line, text))
            for q in frozenset(g.vars.get(o[2], ())):
                if q != o:
                    self.push(g, q, line, text)
        elif o[0] == "selfattr":
            f.selfwrites.setdefault(o[2], line)
        elif o != ("self",):
            f.mut.setdefault(o, (line, text))

    def cls(self):
        f = self.f
        while f is not None and f.cls is None:
            f = f.outer
        return f.cls if f is not None else None

    def class_only(self):
        c = self.m.classes.get(self.cls())
        if c is None:
            return set()
        written = {n.attr for g in c["methods"].values() for n in ast.walk(g.node)
                   if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == g.selfname}
        return c["attrs"] - written

    # ---- statements
    def stmts(self, body, env):
        for s in body:
            self.stmt(s, env)

    def join(self, env, *others):
        for o in others:
            for k, v in o.items():
                env[k] = env.get(k, FRESH) | v

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.f.nested.get(s.name)
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.expr(d, env)
            if g is not None:
                Walk(self.p, g).function()
            env[s.name] = FRESH
        elif isinstance(s, ast.ClassDef):
            env[s.name] = FRESH
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.f.ret |= self.expr(s.value, env)
        elif isinstance(s, ast.Assign):
            o = self.expr(s.value, env)
            for t in s.targets:
                self.assign(t, o, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                o = self.name(t.id, env)
                o = frozenset(q for q in o if not (q[0] == "param" and q[2] in self.p.fns[q[1]].scalar))
                if t.id in self.globals_:
                    self.f.binds_outer.setdefault(("global", t.id), s.lineno)
                elif t.id in self.nonlocals:
                    self.rebind(t.id, s.lineno)
                else:
                    self.mutate(o, s.lineno, ast.unparse(s).split("\n")[0][:60])
            else:
                self.store(t, env, s.lineno, ast.unparse(s).split("\n")[0][:60])
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.store(t, env, s.lineno, ast.unparse(s))
        elif isinstance(s, ast.Expr):
            self.expr(s.value, env, statement=True)
        elif isinstance(s, (ast.If,)):
            self.expr(s.test, env)
            a, b = dict(env), dict(env)
            self.stmts(s.body, a)
            self.stmts(s.orelse, b)
            env.clear()
            self.join(env, a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            o = self.expr(s.iter, env)
            for _ in range(2):
                a = dict(env)
                self.assign(s.target, o, a, None)
                self.stmts(s.body, a)
                self.join(env, a)
            self.stmts(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.expr(s.test, env)
                a = dict(env)
                self.stmts(s.body, a)
                self.join(env, a)
            self.stmts(s.orelse, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                o = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, o, env, None)
            self.stmts(s.body, env)
        elif isinstance(s, ast.Try):
            a = dict(env)
            self.stmts(s.body, a)
            self.join(env, a)
            for h in s.handlers:
                b = dict(env)
                self.stmts(h.body, b)
                self.join(env, b)
            self.stmts(s.orelse, env)
            self.stmts(s.finalbody, env)
        elif isinstance(s, ast.Match):
            self.expr(s.subject, env)
            outs = []
            for c in s.cases:
                a = dict(env)
                self.stmts(c.body, a)
                outs.append(a)
            self.join(env, *outs)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.expr(c, env)

    def rebind(self, name, line):
        g = self.f.outer
        while g is not None and name not in g.vars and name not in g.params:
            g = g.outer
        if g is not None:
            self.f.binds_outer.setdefault(("nonlocal", g.id, name), line)

    def assign(self, t, o, env, value):
        if isinstance(t, ast.Name):
            if t.id in self.globals_:
                self.f.binds_outer.setdefault(("global", t.id), t.lineno)
            elif t.id in self.nonlocals:
                self.rebind(t.id, t.lineno)
            else:
                env[t.id] = frozenset(o)
                self.f.vars.setdefault(t.id, set()).update(o)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(value.elts) + list(t.elts)):
                vals = [self.expr(v, env) for v in value.elts]
                for x, q, v in zip(t.elts, vals, value.elts):
                    self.assign(x, q, env, v)
            else:
                for x in t.elts:
                    self.assign(x, o, env, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, o, env, None)
        else:
            self.store(t, env, t.lineno, ast.unparse(t)[:60] + " = ...", o)

    def store(self, t, env, line, text, value=FRESH):
        """assignment to an item or attribute"""
        if isinstance(t, ast.Attribute):
            base = self.expr(t.value, env)
            if ("self",) in base:
                self.f.selfwrites.setdefault(t.attr, line)
                self.p.attr_origins.setdefault((self.cls(), t.attr), set()).update(value)
            self.mutate(base - {("self",)}, line, text)
        elif isinstance(t, ast.Subscript):
            self.expr(t.slice, env)
            self.mutate(self.expr(t.value, env), line, text)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, env, line, text)

    # ---- expressions
    def name(self, n, env):
        if n in env:
            return env[n]
        f = self.f.outer
        if n in self.bound:
            return FRESH
        while f is not None:
            if n in f.vars or n in f.params or n in (f.vararg, f.kwarg):
                if n in f.params and n not in f.vars:
                    f.vars.setdefault(n, set())
                if n in f.params:
                    if n == f.selfname:
                        return frozenset({("self",)})
                    if f.id not in self.p.jitted:
                        f.vars.setdefault(n, set()).add(("param", f.id, n))
                return frozenset({("enc", f.id, n)})
            if n in f.nested:
                return FRESH
            f = f.outer
        if n in self.m.names or n in self.m.fns or n in self.m.classes:
            return frozenset({("global", self.m.name, n)})
        if n in self.m.imports:
            return frozenset({("global", self.m.imports[n].rpartition(".")[0], self.m.imports[n].rpartition(".")[2] or n)})
        for s in self.m.stars:
            k = self.p.mods.get(s)
            if k is not None and n in k.names:
                return frozenset({("global", s, n)})
        return FRESH

    def expr(self, e, env, statement=False):
        if e is None or isinstance(e, ast.Constant):
            return FRESH
        if isinstance(e, ast.Name):
            return self.name(e.id, env)
        if isinstance(e, ast.Attribute):
            if e.attr in ("shape", "ndim", "size", "dtype", "__name__", "__doc__"):
                self.expr(e.value, env)
                return FRESH
            b = self.expr(e.value, env)
            if ("self",) in b:
                if e.attr == "__class__":
                    return frozenset({("global", self.m.name, self.cls() or "?")})
                return (b - {("self",)}) | {("selfattr", self.cls(), e.attr)}
            return b
        if isinstance(e, ast.Subscript):
            self.expr(e.slice, env)
            return self.expr(e.value, env)
        if isinstance(e, ast.Starred):
            return self.expr(e.value, env)
        if isinstance(e, ast.IfExp):
            self.expr(e.test, env)
            return self.expr(e.body, env) | self.expr(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            o = FRESH
            for v in e.values:
                o = o | self.expr(v, env)
            return o
        if isinstance(e, ast.NamedExpr):
            o = self.expr(e.value, env)
            self.assign(e.target, o, env, None)
            return o
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            o = FRESH
            for v in e.elts:
                o = o | self.expr(v, env)
            # the container is new, its elements are not
            return o if isinstance(e, ast.Tuple) else FRESH
        if isinstance(e, ast.Lambda):
            g = self.f.nested.get(("lambda", e.lineno, e.col_offset))
            if g is not None:
                Walk(self.p, g).function()
            return FRESH
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            a = dict(env)
            for c in e.generators:
                o = self.expr(c.iter, a)
                self.comp_assign(c.target, o, a)
                for i in c.ifs:
                    self.expr(i, a)
            if isinstance(e, ast.DictComp):
                self.expr(e.key, a)
                self.expr(e.value, a)
            else:
                self.expr(e.elt, a)
            return FRESH
        if isinstance(e, ast.Call):
            return self.call(e, env, statement)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, env)
        return FRESH

    def comp_assign(self, t, o, env):
        if isinstance(t, ast.Name):
            env[t.id] = o
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.comp_assign(x, o, env)
        elif isinstance(t, ast.Starred):
            self.comp_assign(t.value, o, env)

    def call(self, e, env, statement):
        p, f = self.p, self.f
        p.notes["calls"] += 1
        d = p.dotted(self.m, f, e.func)
        text = ast.unparse(e)[:60]
        args = [self.expr(a, env) for a in e.args]
        kws = {k.arg: self.expr(k.value, env) for k in e.keywords}
        if "out" in kws and not (d or "").startswith("jax."):
            self.mutate(kws["out"], e.lineno, text)
        target = p.resolve_fn(self.m, f, e.func)
        if target is not None:
            p.notes["resolved"] += 1
            return self.apply(e, target, args, kws, text, env)
        if d is not None:
            if d.startswith("numpy."):
                n = d.split(".")[-1]
                if n in NP_WRITES and args or n == "at" and args or d == "numpy.random.shuffle":
                    self.mutate(args[0], e.lineno, text)
                if n in NP_VIEWS or n == "array" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords) or n == "nan_to_num" and "copy" in kws:
                    o = FRESH
                    for x in args:
                        o = o | x
                    return o
                return FRESH
            if d in ("builtins.setattr", "builtins.delattr") and args:
                if ("self",) in args[0]:
                    f.selfwrites.setdefault(ast.unparse(e.args[1]), e.lineno)
                self.mutate(args[0], e.lineno, text)
                return FRESH
            if d == "builtins.next" and args:
                self.mutate(args[0], e.lineno, text)
            if d == "builtins.globals":
                return frozenset({("global", self.m.name, "globals()")})
            if d.startswith("builtins.") and d[9:] in ALIAS_BUILTINS:
                o = FRESH
                for x in args:
                    o = o | x
                return o
            return FRESH
        if isinstance(e.func, ast.Attribute):
            b = self.expr(e.func.value, env)
            n = e.func.attr
            functional = isinstance(e.func.value, ast.Subscript) and isinstance(e.func.value.value, ast.Attribute) and e.func.value.value.attr == "at"
            if functional:
                return FRESH
            for o in b:
                if o[0] == "global" and self.maker(o) in STATEFUL_MAKERS:
                    self.mutate({o}, e.lineno, text)
            if n in MUTATORS and (statement or n not in ("sort", "partition", "add", "put", "fill", "resize", "reverse")):
                self.mutate(b, e.lineno, text)
            if n == "copy":
                return FRESH
            if n in VIEW_METHODS:
                return b
            return FRESH
        self.expr(e.func, env)
        return FRESH

    def maker(self, o):
        k = self.p.mods.get(o[1])
        if k is None or o[2] not in k.makers:
            return None
        return self.p.dotted(k, None, k.makers[o[2]])

    def apply(self, e, g, args, kws, text, env):
        pos = list(g.pos)
        recv = None
        if g.is_method and isinstance(e.func, ast.Attribute):
            recv = self.expr(e.func.value, env)
            pos = pos[1:]
        elif g.is_method:
            pos = pos[1:]       # constructor
        bind = {}
        for n, o in zip(pos, args):
            bind[n] = o
        for k, o in kws.items():
            if k is not None and k in g.params:
                bind[k] = o
        for o in list(g.mut):
            if o[0] == "param" and o[1] == g.id and o[2] in bind:
                line, t = g.mut[o]
                self.mutate(frozenset(q for q in bind[o[2]] if not (q[0] == "param" and q[2] in self.p.fns[q[1]].scalar)), e.lineno, text + " -> " + t.split(" -> ")[-1])
        out = set()
        for o in g.ret:
            if o[0] == "param" and o[1] == g.id:
                out |= bind.get(o[2], FRESH)
            elif o[0] in ("global", "default"):
                out.add(o)
        return frozenset(out)


def load(root, package="microjax"):
    src = {}
    base = os.path.join(root, package)
    for d, _, files in os.walk(base):
        for n in sorted(files):
            if n.endswith(".py"):
                path = os.path.join(d, n)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                src[rel] = ("src/" + os.path.relpath(path, root), open(path).read())
    return src
