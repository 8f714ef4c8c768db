"""E37: nothing carries over from one call to the next.

Shared variables are module-level names, class attributes, attributes put on
functions, and default values of parameters.  A function that changes one
leaves state behind; that is a violation when some function reads the variable
and the value left behind depends on more than the key it is stored under (a
table of results that is keyed by everything they depend on is harmless, as is
a variable nobody reads).  Besides: results that depend on chance, the clock
or object identity, and process-wide settings that are not restored.
"""
import ast
from ..alias import MUTATORS, Analysis
from ..model import FuncInfo, ClassInfo, ModuleInfo, AnalysisBroken
from ..report import Finding
from . import ownership

# calls that keep only part of what they are given
LOSSY = {"id", "len", "type", "int", "round", "abs", "bool", "min", "max",
         "sum", "any", "all", "isinstance", "hash"}
LOSSY_EXT = {"numpy." + x for x in (
    "min", "max", "mean", "sum", "size", "shape", "ndim", "round", "median",
    "std", "amin", "amax", "floor", "ceil")}
LOSSY_ATTR = {"shape", "size", "dtype", "ndim", "__class__", "__name__"}
LOSSY_METH = {"min", "max", "mean", "sum", "item", "std", "argmax", "argmin"}
CHANCE = ("random.", "numpy.random.", "secrets.", "uuid.uuid1", "uuid.uuid4",
          "os.urandom", "os.getpid")
SEEDED = {"numpy.random.default_rng", "numpy.random.RandomState",
          "random.Random", "numpy.random.Generator",
          "numpy.random.SeedSequence"}
CLOCK = {"time.time", "time.perf_counter", "time.monotonic",
         "time.process_time", "time.time_ns", "datetime.datetime.now",
         "datetime.datetime.utcnow", "datetime.date.today",
         "datetime.datetime.today"}
SETTERS = {"numpy.seterr", "numpy.seterrcall", "numpy.random.seed",
           "random.seed", "os.chdir", "os.putenv", "os.unsetenv",
           "locale.setlocale", "sys.setrecursionlimit", "signal.signal",
           "numpy.set_printoptions", "os.umask", "numpy.setbufsize",
           "socket.setdefaulttimeout", "decimal.setcontext",
           "pandas.set_option", "sys.path.insert", "sys.path.append",
           "sys.setswitchinterval", "gc.disable"}
MEMO = {"functools.lru_cache", "functools.cache",
        "functools.cached_property"}
NEW = {"dict", "list", "set", "collections.defaultdict",
       "collections.OrderedDict", "collections.deque", "collections.Counter",
       "weakref.WeakKeyDictionary", "weakref.WeakValueDictionary"}
SPEAK = {"print", "str", "repr", "format", "debug_message"}


# arrays that measurements and plots read again later
QUANTITIES = {"t", "amp_gw", "phase_gw", "omega_gw", "res_amp_gw",
              "res_omega_gw", "amp_gw_zeroecc_interp",
              "omega_gw_zeroecc_interp", "omega_gw_zeroecc_copr",
              "t_zeroecc_shifted", "omega_gw_pericenters",
              "omega_gw_apocenters", "data_for_finding_extrema",
              "pericenters_location", "apocenters_location"}


def linear(body):
    """Statements in the order they are written, nested ones included."""
    for s in body:
        yield s
        for f in ("body", "orelse", "handlers", "finalbody"):
            for x in linear(getattr(s, f, ())):
                yield x


def inplace(n):
    """Targets a statement changes in place."""
    if isinstance(n, ast.AugAssign):
        return [n.target]
    if isinstance(n, ast.Assign):
        return [t for t in n.targets if isinstance(t, ast.Subscript)]
    return []


def functions(repo):
    for m in repo.modules.values():
        for f in m.functions.values():
            yield f
        for c in m.classes.values():
            for f in c.methods.values():
                yield f


def dotted(mod, e):
    if not isinstance(e, (ast.Name, ast.Attribute)):
        return None
    r = mod.resolve_expr(e)
    return r if isinstance(r, str) else None


class Body:
    """Names of one function and what they depend on."""

    def __init__(self, repo, fi):
        self.repo, self.fi, self.mod = repo, fi, fi.module
        a = fi.node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.params.add(x.arg)
        self.me = None
        names = [x.arg for x in a.posonlyargs + a.args]
        if fi.cls is not None and names and \
                "staticmethod" not in fi.decorators:
            self.me = names[0]
        self.globals, self.values, self.parent = set(), {}, {}
        for n in ast.walk(fi.node):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.target(t, n.value, n)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                if n.value is not None:
                    self.target(n.target, n.value, n)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.target(n.target, n.iter, n)
            elif isinstance(n, ast.NamedExpr):
                self.target(n.target, n.value, n)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                self.target(n.optional_vars, n.context_expr, n)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.values.setdefault(n.name, [])
            elif isinstance(n, ast.Lambda):
                for x in n.args.args:
                    self.values.setdefault(x.arg, [])
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                    n is not fi.node:
                self.values.setdefault(n.name, []).append((n, n))
                if isinstance(n, ast.FunctionDef):
                    for x in n.args.args:
                        self.values.setdefault(x.arg, [])
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    self.values.setdefault(
                        (x.asname or x.name).split(".")[0], [])

    def target(self, t, v, s):
        if isinstance(t, ast.Name):
            self.values.setdefault(t.id, []).append((v, s))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, v, s)
        elif isinstance(t, ast.Starred):
            self.target(t.value, v, s)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            # what is put into a local object belongs to it
            b = t
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in self.values and \
                    b.id != self.me:
                self.values[b.id].append((v, s))

    def local(self, name):
        return name not in self.globals and (
            name in self.params or name in self.values)

    # --------------------------------------------------- shared variables
    def shared(self, e, depth=0):
        """Shared variable an expression denotes."""
        if isinstance(e, ast.Name):
            if e.id in self.globals:
                return ("module", self.mod.name, e.id)
            if e.id in self.params:
                return None
            if e.id in self.values:
                if depth < 4:
                    for v, s in self.values[e.id]:
                        if isinstance(s, (ast.Assign, ast.NamedExpr)) and \
                                isinstance(v, (ast.Name, ast.Attribute)):
                            r = self.shared(v, depth + 1)
                            if r is not None:
                                return r
                return None
            r = self.mod.resolve(e.id)
            if isinstance(r, tuple) and r[0] == "const":
                return ("module", r[1].name, r[3])
            return None
        if isinstance(e, ast.Attribute):
            b = e.value
            if isinstance(b, ast.Name) and b.id == self.me:
                k = self.fi.cls
                if "classmethod" in self.fi.decorators:
                    return self.classvar(k, e.attr)
                return self.instance(k, e.attr)
            if isinstance(b, ast.Attribute) and b.attr == "__class__" or \
                    isinstance(b, ast.Call) and isinstance(
                        b.func, ast.Name) and b.func.id == "type":
                inner = b.value if isinstance(b, ast.Attribute) else (
                    b.args[0] if b.args else None)
                if isinstance(inner, ast.Name) and inner.id == self.me:
                    return self.classvar(self.fi.cls, e.attr)
                return None
            if isinstance(b, ast.Name) and self.local(b.id):
                return None
            r = self.mod.resolve_expr(b) if isinstance(
                b, (ast.Name, ast.Attribute)) else None
            if isinstance(r, ClassInfo):
                return self.classvar(r, e.attr)
            if isinstance(r, ModuleInfo):
                x = r.resolve(e.attr)
                if isinstance(x, tuple) and x[0] == "const":
                    return ("module", x[1].name, x[3])
            if isinstance(r, FuncInfo):
                return ("function", r.qual, e.attr)
        return None

    def classvar(self, k, attr):
        for c in k.mro():
            if attr in c.consts:
                return ("class", c.name, attr)
        return ("class", k.name, attr)

    def instance(self, k, attr):
        """self.attr is the class's own container, not the object's."""
        for c in k.mro():
            if attr in c.consts:
                if attr in own_attrs(self.repo, k):
                    return None
                v = c.consts[attr]
                return ("class", c.name, attr) if v is not None and \
                    container(self.mod, v) else None
        return None

    # ------------------------------------------------------ dependencies
    def deps(self, e, key=False, busy=frozenset()):
        """Parameters and attributes an expression depends on.  With key,
        only those it preserves."""
        if isinstance(e, (ast.FunctionDef, ast.ClassDef)):
            out = set()
            for n in e.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Load):
                        out |= self.deps(x, key, busy)
            return out
        if isinstance(e, ast.Name):
            if e.id == self.me:
                return {"self"}
            out = set()
            if e.id in self.params:
                out.add(e.id)
            if (e.id, key) in busy:
                return out
            b = busy | {(e.id, key)}
            for v, s in self.values.get(e.id, ()):
                out |= self.deps(v, key, b)
                if not key:
                    out |= self.control(s, b)
            return out
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.me:
                p = self.parent.get(e)
                if isinstance(p, ast.Call) and p.func is e and \
                        self.fi.cls is not None and \
                        self.fi.cls.find(e.attr) is not None:
                    return {"self"}
                return {"self." + e.attr}
            if key and e.attr in LOSSY_ATTR:
                return set()
            return self.deps(e.value, key, busy)
        if key and isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in LOSSY or \
                    dotted(self.mod, f) in LOSSY_EXT or \
                    isinstance(f, ast.Attribute) and f.attr in LOSSY_METH:
                return set()
        if key and isinstance(e, ast.Subscript) and not isinstance(
                e.slice, ast.Constant) and isinstance(e.slice, (
                    ast.UnaryOp, ast.Slice)):
            return set()
        if key and isinstance(e, ast.Subscript) and isinstance(
                e.slice, ast.Constant) and isinstance(e.slice.value, int):
            return set()
        if key and isinstance(e, (ast.Compare, ast.BoolOp)):
            return set()
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.comprehension, ast.keyword,
                              ast.Starred)):
                out |= self.deps(c.value if isinstance(c, ast.keyword)
                                 else c, key, busy)
        if isinstance(e, ast.comprehension):
            out |= self.deps(e.iter, key, busy)
        return out

    def control(self, s, busy):
        out = set()
        p = self.parent.get(s)
        while p is not None and p is not self.fi.node:
            if isinstance(p, (ast.If, ast.While)):
                out |= self.deps(p.test, False, busy)
            p = self.parent.get(p)
        return out


def container(mod, v):
    if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp,
                      ast.ListComp, ast.SetComp)):
        return True
    return isinstance(v, ast.Call) and (
        isinstance(v.func, ast.Name) and v.func.id in NEW or
        dotted(mod, v.func) in NEW)


def own_attrs(repo, k):
    """Attributes the objects of a class are given."""
    c = repo.__dict__.setdefault("_own_attrs", {})
    if id(k.node) in c:
        return c[id(k.node)]
    out = c[id(k.node)] = set()
    for q in k.mro():
        for f in q.methods.values():
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if not names:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store) and isinstance(
                        n.value, ast.Name) and n.value.id == names[0]:
                    out.add(n.attr)
    return out


def constructor_only(repo, k):
    """Attributes no method but the constructors (and what only they call)
    assigns."""
    c = repo.__dict__.setdefault("_ctor_attrs", {})
    if id(k.node) in c:
        return c[id(k.node)]
    calls, stores = {}, {}
    for q in k.mro():
        for name, f in q.methods.items():
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            me = names[0] if names else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id == me:
                    if isinstance(n.ctx, ast.Store):
                        stores.setdefault(n.attr, set()).add(name)
                    else:
                        calls.setdefault(n.attr, set()).add(name)
    ctor = {"__init__"}
    while True:
        more = {m for q in k.mro() for m in q.methods
                if m.startswith("_") or True
                if m not in ctor and calls.get(m) and calls[m] <= ctor}
        if not more:
            break
        ctor |= more
    c[id(k.node)] = {a for a, ms in stores.items() if ms <= ctor}
    return c[id(k.node)]


class Facts:
    def __init__(self, repo):
        self.repo = repo
        self.writes, self.reads = {}, {}
        self.funcs, self.other, self.left = [], [], None
        for f in functions(repo):
            self.funcs.append(f)
            b = Body(repo, f)
            self.scan(f, b)
            self.defaults(f, b)
            self.memo(f, b)
            self.memo_decorator(f, b)
            self.aliases(f, b)
            self.chance(f, b)
            self.settings(f, b)

    def write(self, v, f, node, val, key, b):
        d = set()
        for x in val:
            d |= b.deps(x)
        k = set()
        for x in key:
            k |= b.deps(x, True)
            if isinstance(x, ast.Name) and x.id == b.me:
                k.add("self")
        self.writes.setdefault(v, []).append((f, node, d, k))

    def read(self, v, f, node):
        self.reads.setdefault(v, []).append((f, node))

    def scan(self, f, b):
        done = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign,
                              ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) \
                    else [n.target]
                for t in ts:
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List))
                              else t.elts):
                        self.store(f, b, x, n, done)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in MUTATORS:
                base, keys = n.func.value, []
                while isinstance(base, ast.Subscript):
                    keys.append(base.slice)
                    base = base.value
                v = b.shared(base)
                if v is not None:
                    done.add(base)
                    m = n.func.attr
                    val = list(n.args) + [k.value for k in n.keywords]
                    if m == "setdefault" and len(n.args) == 2:
                        keys, val = keys + n.args[:1], n.args[1:]
                        self.read(v, f, n)
                    elif m in ("add",):
                        keys = keys + n.args
                    elif m == "pop":
                        self.read(v, f, n)
                        val = []
                    if m in ("clear", "sort", "reverse", "remove",
                             "discard"):
                        val = []
                    self.write(v, f, n, val, keys, b)
        for n in ast.walk(f.node):
            if n in done or not isinstance(n, (ast.Name, ast.Attribute)) or \
                    not isinstance(n.ctx, ast.Load):
                continue
            p = b.parent.get(n)
            if isinstance(p, ast.Attribute) and p.value is n and \
                    p in done:
                continue
            v = b.shared(n)
            if v is not None:
                if isinstance(p, ast.Assign) and p.value is n and \
                        isinstance(n, ast.Name):
                    continue        # a local name for it
                self.read(v, f, n)

    def store(self, f, b, t, n, done):
        keys = []
        base = t
        while isinstance(base, ast.Subscript):
            keys.append(base.slice)
            base = base.value
        val = [n.value] if getattr(n, "value", None) is not None else []
        if isinstance(base, ast.Name):
            if base is t and base.id not in b.globals:
                return              # binds a local name
            v = b.shared(base)
        elif isinstance(base, ast.Attribute):
            v = b.shared(base)
            if v is not None and base is t and isinstance(
                    base.value, ast.Name) and base.value.id == b.me and \
                    "classmethod" not in b.fi.decorators:
                v = None            # becomes an attribute of the object
            if v is None and base is t:
                v = self.deep(b, base)
        else:
            v = None
        if v is None:
            return
        done.add(base)
        if isinstance(n, ast.AugAssign):
            self.read(v, f, n)
            val = val or []
        self.write(v, f, n, val, keys, b)

    def deep(self, b, e):
        """An attribute of an object a shared name holds."""
        x = e.value
        if isinstance(x, (ast.Name, ast.Attribute)):
            v = b.shared(x)
            if v is not None and v[0] == "module":
                return v
        return None

    # ------------------------------------------------------------ defaults
    def defaults(self, f, b):
        a = f.node.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [
            (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None]
        hot = {x.arg for x, d in pairs if container(f.module, d)}
        if not hot:
            return
        an = self.repo.__dict__.setdefault("_alias_an",
                                           Analysis(self.repo))
        s = an.summary(f)
        for o, sites in s.muts.items():
            r = o
            while r[0] == "in":
                r = r[1]
            if r[0] == "P" and r[1] in hot:
                for site in sites.values():
                    self.other.append((
                        f, f"{site.relpath}:{site.line}",
                        f"changes the default value of {r[1]}, which every "
                        "later call without this argument gets"))
                    break

    # ---------------------------------------------- tables on the object
    def memo(self, f, b):
        if f.cls is None or b.me is None or f.name == "__init__":
            return
        fixed = None
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if not (isinstance(t, ast.Subscript) and isinstance(
                        t.value, ast.Attribute) and isinstance(
                        t.value.value, ast.Name) and
                        t.value.value.id == b.me):
                    continue
                x = t.value.attr
                if not self.tested(f, b, x, t.slice):
                    continue
                if fixed is None:
                    fixed = constructor_only(self.repo, f.cls)
                d = {y for y in b.deps(n.value) if not (
                    y.startswith("self.") and y[5:] in fixed)}
                if any(y.startswith("self") for y in d):
                    if "self" in d and not any(
                            y.startswith("self.") for y in d):
                        d.discard("self")   # what the methods read: unknown
                d.discard("self." + x)
                k = b.deps(t.slice, True)
                rest = d - k
                if rest:
                    self.other.append((
                        f, f"{f.module.relpath}:{n.lineno}",
                        f"self.{x} keeps a result that also depends on "
                        f"{', '.join(sorted(rest))}, which is not part of "
                        "the key"))

    def tested(self, f, b, attr, key):
        """self.attr[key] is looked up before it is filled."""
        def is_it(e):
            return isinstance(e, ast.Attribute) and e.attr == attr and \
                isinstance(e.value, ast.Name) and e.value.id == b.me
        u = ast.unparse(key)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                    n.ops[0], (ast.In, ast.NotIn)) and is_it(
                    n.comparators[0]) and ast.unparse(n.left) == u:
                return True
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == "get" and \
                    is_it(n.func.value) and n.args and \
                    ast.unparse(n.args[0]) == u:
                return True
        return False

    def memo_decorator(self, f, b):
        for d in f.node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            if dotted(f.module, e) not in MEMO:
                continue
            if b.me is None:
                continue
            fixed = constructor_only(self.repo, f.cls)
            bad = sorted({n.attr for n in ast.walk(f.node) if isinstance(
                n, ast.Attribute) and isinstance(n.ctx, ast.Load) and
                isinstance(n.value, ast.Name) and n.value.id == b.me and
                n.attr in own_attrs(self.repo, f.cls) and
                n.attr not in fixed})
            if bad:
                self.other.append((
                    f, f.where, "results are kept although they depend on "
                    "attributes that change: " + ", ".join(bad)))

    # ------------------------------------ quantities under two names
    def aliases(self, f, b):
        """An array the object keeps under two names is changed in place
        through one of them."""
        if f.cls is None or b.me is None:
            return
        order = {}
        for i, n in enumerate(linear(f.node.body)):
            order[n] = i
        same = {}           # attribute -> [(position, source attribute)]
        for n in order:
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(
                        t.value, ast.Name) and t.value.id == b.me:
                    same.setdefault(t.attr, []).append(
                        (order[n], self.source(b, n.value)))
        for n in order:
            for t in inplace(n):
                base = t
                while isinstance(base, ast.Subscript):
                    base = base.value
                if not (isinstance(base, ast.Attribute) and isinstance(
                        base.value, ast.Name) and base.value.id == b.me):
                    continue
                prior = [x for i, x in same.get(base.attr, ())
                         if i < order[n]]
                if base.attr in same:
                    src = prior[-1] if prior else None
                else:
                    src = self.inherited(f.cls, base.attr)
                if src is not None and src != base.attr and src in QUANTITIES:
                    self.other.append((
                        f, f"{f.module.relpath}:{n.lineno}",
                        f"self.{base.attr} is the same array as self.{src}, "
                        "which is changed with it"))

    def source(self, b, e, depth=0):
        """Attribute of the object whose array an expression is."""
        while isinstance(e, ast.Subscript) and isinstance(
                e.slice, ast.Slice):
            e = e.value
        if isinstance(e, ast.Call) and dotted(b.mod, e.func) in (
                "numpy.asarray", "numpy.ravel", "numpy.atleast_1d",
                "numpy.asanyarray") and e.args:
            return self.source(b, e.args[0], depth)
        if isinstance(e, ast.Attribute) and isinstance(
                e.value, ast.Name) and e.value.id == b.me:
            return e.attr
        if isinstance(e, ast.Name) and depth < 4:
            vs = b.values.get(e.id, ())
            if len(vs) == 1 and isinstance(vs[0][1], ast.Assign) and \
                    vs[0][0] is vs[0][1].value and e.id not in b.params:
                return self.source(b, vs[0][0], depth + 1)
        return None

    def inherited(self, k, attr):
        """What the constructor that runs last makes of an attribute."""
        for c in k.mro():
            f = c.methods.get("__init__")
            if f is None:
                continue
            b = Body(self.repo, f)
            out = None
            for n in linear(f.node.body):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == attr \
                                and isinstance(t.value, ast.Name) and \
                                t.value.id == b.me:
                            out = (self.source(b, n.value),)
            if out is not None:
                return out[0]
        return None

    # -------------------------------------------------- chance and the clock
    def chance(self, f, b):
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            r = dotted(f.module, n.func)
            if r is None:
                continue
            if r in SEEDED and (n.args or n.keywords):
                continue
            rnd = r.startswith(CHANCE) and r not in SETTERS
            clk = r in CLOCK
            if not rnd and not clk:
                continue
            if self.matters(f, b, n, rnd):
                self.other.append((
                    f, f"{f.module.relpath}:{n.lineno}",
                    f"the result depends on {r}()"))

    def matters(self, f, b, n, rnd):
        """The value reaches a result (or, for the clock, a decision)."""
        names, todo, seen = set(), [n], set()
        while todo:
            e = todo.pop()
            if id(e) in seen:
                continue
            seen.add(id(e))
            p = b.parent.get(e)
            while p is not None:
                if isinstance(p, ast.Call) and e is not p.func:
                    if isinstance(p.func, ast.Name) and p.func.id in SPEAK:
                        break
                    if isinstance(p.func, ast.Attribute) and p.func.attr in (
                            "info", "debug", "warning", "write", "format"):
                        break
                if isinstance(p, (ast.JoinedStr, ast.Raise)):
                    break
                if isinstance(p, ast.Return):
                    return True
                if isinstance(p, (ast.If, ast.While)) and e is p.test:
                    return not self.speaks(p)
                if isinstance(p, (ast.Assign, ast.AugAssign)):
                    ts = p.targets if isinstance(p, ast.Assign) \
                        else [p.target]
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(
                                    x.ctx, ast.Store):
                                if x.id not in names:
                                    names.add(x.id)
                                    todo += [
                                        y for y in ast.walk(f.node)
                                        if isinstance(y, ast.Name) and
                                        y.id == x.id and isinstance(
                                            y.ctx, ast.Load)]
                            elif isinstance(x, (ast.Attribute,
                                                ast.Subscript)) and \
                                    isinstance(x.ctx, ast.Store) and rnd:
                                return True
                    break
                if isinstance(p, ast.stmt):
                    break
                e, p = p, b.parent.get(p)
        return False

    def speaks(self, s):
        return all(isinstance(x, (ast.Expr, ast.Assign, ast.Pass)) and (
            not isinstance(x, ast.Expr) or isinstance(x.value, ast.Call) and
            isinstance(x.value.func, ast.Name) and
            x.value.func.id in SPEAK) and not isinstance(x, ast.Assign)
            for x in s.body + s.orelse)

    # ------------------------------------------------------------ settings
    def settings(self, f, b):
        def restored(name):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Try):
                    for s in n.finalbody:
                        for c in ast.walk(s):
                            if isinstance(c, (ast.Call, ast.Attribute)):
                                e = c.func if isinstance(c, ast.Call) else c
                                if dotted(f.module, e) == name:
                                    return True
            return False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                r = dotted(f.module, n.func)
                if r in SETTERS or r is not None and r.startswith(
                        "os.environ.") and r.rsplit(".", 1)[1] in MUTATORS:
                    if not restored(r) and not restored("os.environ"):
                        self.other.append((
                            f, f"{f.module.relpath}:{n.lineno}",
                            f"{r} changes a setting of the whole process"))
            elif isinstance(n, ast.Subscript) and not isinstance(
                    n.ctx, ast.Load) and dotted(
                        f.module, n.value) == "os.environ" and not restored(
                        "os.environ"):
                self.other.append((
                    f, f"{f.module.relpath}:{n.lineno}",
                    "os.environ is changed"))


def facts(repo):
    k = repo.__dict__.get("_shared")
    if k is None:
        k = repo.__dict__["_shared"] = Facts(repo)
        if len(k.funcs) < 60:
            raise AnalysisBroken("most functions are gone")
    return k


def leftovers(repo):
    """{shared variable: [(function, node, what it depends on)]} for the
    variables that carry results from one call to another."""
    k = facts(repo)
    if k.left is not None:
        return k.left
    out = k.left = {}
    for v, ws in k.writes.items():
        if not k.reads.get(v):
            continue
        for f, node, d, key in ws:
            rest = {x for x in d if x not in key and not (
                x.startswith("self.") and "self" in key)}
            if rest:
                out.setdefault(v, []).append((f, node, rest))
    return out


def handed_out(repo):
    """Module-level containers that are changed by whoever got them from a
    function: [(variable, site)]."""
    es, sol = ownership.solution(repo)
    out = {}
    for fi, o, site in sol.muts:
        for q in sol.resolve(o):
            r = q
            while r[0] == "in":
                r = r[1]
            if r[0] != "G":
                continue
            mod = repo.modules.get(r[1])
            v = mod.resolve(r[2]) if mod is not None else None
            if not (isinstance(v, tuple) and v[0] == "const"):
                continue
            if v[2] is not None and (container(v[1], v[2]) or dotted(
                    v[1], getattr(v[2], "func", None)) in (
                    "numpy.array", "numpy.zeros", "numpy.ones",
                    "numpy.arange", "numpy.linspace")):
                out.setdefault(("module", v[1].name, v[3]), {})[
                    site.key()] = site
    return out


def rule(repo, prop):
    k = facts(repo)
    bad = set()
    direct = {(f.module.relpath, f.qual) for v in k.writes
              for f, *_ in k.writes[v]}
    for v, sites in sorted(handed_out(repo).items()):
        for key in sorted(sites):
            site = sites[key]
            if (site.relpath, site.func) in direct and v in k.writes:
                continue
            bad.add(site.func)
            yield Finding(
                "shared-state", f"{v[2]} ({v[0]} {v[1]}): {site.func}",
                "violation", f"{site.relpath}:{site.line}",
                f"{site.what}: it is (part of) {v[2]}, which every later "
                "call gets")
    for v, ws in sorted(leftovers(repo).items()):
        for f, node, rest in ws:
            bad.add(f.qual)
            rf, rn = k.reads[v][0]
            yield Finding(
                "shared-state", f"{v[2]} ({v[0]} {v[1]}): {f.qual}",
                "violation", f"{f.module.relpath}:{node.lineno}",
                f"leaves a value behind that depends on "
                f"{', '.join(sorted(rest))} but not on its key alone; read "
                f"by {rf.qual} at {rf.module.relpath}:{rn.lineno}")
    for f, where, what in k.other:
        bad.add(f.qual)
        yield Finding("shared-state", f"{f.qual}: {what[:50]}", "violation",
                      where, what)
    for f in k.funcs:
        if f.qual not in bad:
            yield Finding("shared-state", f.qual, "holds", f.where, "")


RULES = {"E37": rule}
