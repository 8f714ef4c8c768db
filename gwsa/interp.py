"""Gated value-flow evaluation of Python source.

The evaluator walks the syntax tree of a function once, converts control flow
into gated values (if-conversion), inlines calls inside the package, summarises
loops, and records effects (raises, calls with effects, mutations) as guarded
events.  No path is enumerated and nothing is executed.
"""
import ast
import copy
from fractions import Fraction
from .terms import *  # noqa: F401,F403
from . import terms as tm
from . import effects
from .model import FuncInfo, ClassInfo, ModuleInfo, AnalysisBroken
from . import lib


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.node = node


class PyObj:
    pass


class Func(PyObj):
    def __init__(self, fi, frame=None, env=None):
        self.fi, self.frame, self.env = fi, frame, env


class Bound(PyObj):
    def __init__(self, fi, self_val, after=None):
        self.fi, self.self_val = fi, self_val


class Ext(PyObj):
    def __init__(self, name):
        self.name = name


class Cls(PyObj):
    def __init__(self, ci):
        self.ci = ci


class Mod(PyObj):
    def __init__(self, mi):
        self.mi = mi


class Super(PyObj):
    def __init__(self, self_val, after):
        self.self_val, self.after = self_val, after


class Partial(PyObj):
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


_pyobjs = {}


def pyobj(o, key=None):
    """Wrap an analysis object as a term (interned by key)."""
    if key is None:
        key = ("id", id(o))
    w = _pyobjs.get(key)
    if w is None:
        w = (o, mk("pyobj", (), ("pyobj", len(_pyobjs))))
        _pyobjs[key] = w
        _byterm[w[1].id] = o
    return w[1]


_byterm = {}


def unpy(t):
    return _byterm.get(t.id)


def ext(name):
    return pyobj(Ext(name), ("ext", name))


# functions that update their first argument in place and return it
INPLACE = {"fn:check_kwargs_and_set_defaults"}


class HObj:
    """Abstract contents of an object; treated as immutable."""
    __slots__ = ("kind", "base", "items", "cls")

    def __init__(self, kind, base=ABSENT, items=None, cls=None):
        self.kind, self.base, self.cls = kind, base, cls
        self.items = items or {}

    def with_item(self, k, v):
        it = dict(self.items)
        it[k] = v
        return HObj(self.kind, self.base, it, self.cls)

    def with_base(self, b, items=None):
        return HObj(self.kind, b,
                    self.items if items is None else items, self.cls)


class Event:
    __slots__ = ("kind", "guard", "name", "args", "where", "node", "loops",
                 "seq", "kws")

    def __init__(self, kind, guard, name, args, where, seq=0):
        self.kind, self.guard, self.name = kind, guard, name
        self.args, self.where, self.loops = args, where, ()
        self.seq = seq
        self.kws = ()

    def copy(self):
        e = Event(self.kind, self.guard, self.name, self.args, self.where,
                  self.seq)
        e.kws, e.loops = self.kws, self.loops
        return e

    def __repr__(self):
        a = ", ".join(show(x, 6) if isinstance(x, T) else str(x)
                      for x in self.args)
        return (f"{self.kind}:{self.name}({a}) if {show(self.guard, 6)}"
                f" @{self.where}")


class Frame:
    def __init__(self, module, fi=None, parent=None):
        self.module, self.fi, self.parent = module, fi, parent
        self.env = {}
        self.rets = []
        self.loops = []      # stack of loop records
        self.pending = FALSE  # exits already taken in this frame
        self.cls = fi.cls if fi else None
        self.self_val = None


class State:
    __slots__ = ("heap", "pc")

    def __init__(self):
        self.heap, self.pc = {}, TRUE


_counter = [0]


def fresh_id():
    _counter[0] += 1
    return _counter[0]


class Interp:
    MAXDEPTH = 40
    MAXUNROLL = 80

    def __init__(self, repo, boundaries=(), own=False, opts=None):
        self.repo = repo
        self.boundaries = set(boundaries)
        self.own = own
        self.st = State()
        self.events = []
        self.inner = {}
        self.held = {}
        # loops that only refuse what their elements have no say in: when
        # they do not run
        self.idle = []
        self.known_len = (opts or {}).get("known_len", {})
        self.seen_boundaries = set()
        self.stack = []          # Frame stack
        self.locs = {}
        self.tries = []          # stack of try records
        self.inlined = {}
        self.opts = opts or {}
        self.ncalls = 0
        self.module_cache = {}
        self.seen_calls = set()
        self.problems = []
        self.loop_cache = {}

    # ------------------------------------------------------------- plumbing
    @property
    def fr(self):
        return self.stack[-1]

    def where(self, node=None):
        f = self.fr if self.stack else None
        ln = getattr(node, "lineno", None)
        return f"{f.module.relpath if f else '?'}:{ln}"

    def note(self, t, node):
        if t.id not in self.locs and self.stack:
            self.locs[t.id] = (self.fr.module.relpath,
                               getattr(node, "lineno", 0))
        return t

    def event(self, kind, name, args, node=None, guard=None):
        e = Event(kind, self.st.pc if guard is None else guard, name,
                  tuple(args), self.where(node), fresh_id())
        if e.guard is not FALSE:
            self.events.append(e)
        return e

    def alloc(self, obj):
        r = mk("ref", (), fresh_id())
        self.st.heap[r.id] = obj
        return r

    def new_dict(self, items=None, base=ABSENT):
        return self.alloc(HObj("dict", base, dict(items or {})))

    def new_list(self, base):
        return self.alloc(HObj("list", base))

    def hobj(self, t):
        return self.st.heap.get(t.id)

    # --------------------------------------------------- merging of branches
    def branch(self, c, f, g):
        """Evaluate thunk f under c and g under not c; merge; return value."""
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        pc0 = self.st.pc
        c_live = constrain(c, pc0) if pc0 is not TRUE else c
        if c_live is TRUE:
            return f()
        if c_live is FALSE:
            return g()
        heap0, env0 = dict(self.st.heap), dict(self.fr.env)
        pend0 = self.fr.pending
        self.st.pc = band(pc0, c)
        v1 = f()
        h1, e1, pc1, p1 = (self.st.heap, self.fr.env, self.st.pc,
                           self.fr.pending)
        self.st.heap, self.st.pc = heap0, band(pc0, bnot(c))
        self.fr.env, self.fr.pending = env0, pend0
        # share env dict identity for closures
        v2 = g()
        h2, e2, pc2, p2 = (self.st.heap, self.fr.env, self.st.pc,
                           self.fr.pending)
        self.st.pc = bor(pc1, pc2)
        self.fr.pending = bor(p1, p2)
        dead1 = pc1 is FALSE and p1 is pend0 and not self.tries_open()
        dead2 = pc2 is FALSE and p2 is pend0 and not self.tries_open()
        if dead1 and dead2:
            self.st.heap, self.fr.env = h2, e2
            return v2
        if dead1:
            self.st.heap, self.fr.env = h2, e2
            return v2
        if dead2:
            self.st.heap, self.fr.env = h1, e1
            return v1
        self.st.heap = self.merge_heap(c, h1, h2)
        env = {}
        for k in list(e1) + [k for k in e2 if k not in e1]:
            a, b = e1.get(k, UNDEF), e2.get(k, UNDEF)
            env[k] = a if a is b else self.phi(c, a, b)
        self.fr.env = env
        if v1 is None or v2 is None:
            return None
        return v1 if v1 is v2 else self.phi(c, v1, v2)

    def tries_open(self):
        return bool(self.tries)

    def phi(self, c, a, b):
        return ite(c, a, b)

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = {}
        for k in set(h1) | set(h2):
            o1, o2 = h1.get(k), h2.get(k)
            if o1 is None or o2 is None:
                t = tm.node(k)
                if t.op == "ref":
                    # allocated on one side only
                    out[k] = o1 or o2
                    continue
                # an unknown object changed on one side only
                o1, o2 = o1 or HObj("obj", t), o2 or HObj("obj", t)
            if o1 is o2:
                out[k] = o1
            else:
                out[k] = self.merge_obj(c, o1, o2, k, h1, h2)
        return out

    def merge_obj(self, c, o1, o2, key, h1, h2):
        kind = o1.kind
        if o1.kind != o2.kind:
            kind = "obj"
        items = {}
        base = o1.base
        if o1.base is not o2.base:
            if kind == "list":
                base = ite(c, o1.base, o2.base)
            else:
                base = ite(c, o1.base, o2.base)
        for k in list(o1.items) + [k for k in o2.items if k not in o1.items]:
            a = o1.items.get(k)
            b = o2.items.get(k)
            if a is None:
                a = self.base_get(o1, k)
            if b is None:
                b = self.base_get(o2, k)
            items[k] = a if a is b else ite(c, a, b)
        return HObj(kind, base, items, o1.cls or o2.cls)

    def base_get(self, o, k):
        """Value of key k taken from the base of o (not in items)."""
        def leaf(b):
            if b is ABSENT:
                return ABSENT
            if o.kind == "inst" or (o.kind == "obj" and k.op == "const"
                                    and k.data[0] == "attrname"):
                return mk("attr", (b,), attr_name(k))
            # dict with a symbolic base: may be absent
            return ite(self.contains_atom(k, b), self.t_index(b, k), ABSENT)
        return map_leaves(leaf, o.base)

    def contains_atom(self, k, b):
        def f(b):
            if b is ABSENT:
                return FALSE
            if b.op == "dstore":
                return bor(eq(k, b.args[1]), f(b.args[0]))
            if b.op == "dict":
                n = b.args[1:]
                r = FALSE
                for i in range(0, len(n), 2):
                    e = eq(k, n[i])
                    v = map_leaves(lambda x: FALSE if x is ABSENT else TRUE,
                                   n[i + 1])
                    r = ite(e, v, r)
                hit = bany(eq(k, n[i]) for i in range(0, len(n), 2))
                return ite(hit, r, f(b.args[0]))
            if b.op == "dunion":
                return bor(f(b.args[0]), f(b.args[1]))
            if b.op == "call" and k.op == "const":
                ks = self.repo.return_keys(b.data[0])
                if ks is not None:
                    return TRUE if is_str(k) and k.data[1] in ks else FALSE
            return atom(mk("in", (k, b)))
        return map_leaves(f, b)

    # gated store, honouring exits already taken in enclosing frames
    def gate(self):
        p = FALSE
        for f in self.stack:
            p = bor(p, f.pending)
        return p

    def set_local(self, name, v):
        fr = self.fr
        if fr.pending is not FALSE and name in fr.env:
            old = fr.env[name]
            if old is not v:
                # value only matters where execution is still live here
                v = ite(constrain_or(self.st.pc, bor(self.st.pc, fr.pending)),
                        v, old)
        fr.env[name] = v

    def gated(self, v, old):
        p = self.gate()
        if p is FALSE or v is old:
            return v
        live = self.st.pc
        return ite(constrain_or(live, bor(live, p)), v, old)

    # ------------------------------------------------------------- freezing
    def freeze(self, t, depth=0):
        """Replace references by the value they currently hold."""
        if depth > 12:
            return opaque("deep object")
        if t.op == "ite":
            return map_leaves(lambda x: self.freeze(x, depth), t)
        if t.op == "pyobj":
            return self.freeze_py(t, depth)
        o = self.st.heap.get(t.id)
        if o is None:
            if t.op in ("tuple", "list", "concat"):
                return mk_seq(t.op, [self.freeze(a, depth + 1)
                                     for a in t.args])
            if t.op in ("zipped", "enumerated", "dictitems", "dictvalues",
                        "starred"):
                return mk(t.op, tuple(self.freeze(a, depth + 1)
                                      for a in t.args), t.data)
            ks = self.nested_changes(t, {}, depth) if self.inner else ()
            return mk("dict", (t, *ks)) if ks else t
        return self.freeze_obj(t, o, depth)

    def note_inner(self, o):
        """o, held under a constant key of an object the analysis did not
        build, is about to be changed in place."""
        while o.op == "index" and const_key(o.args[1]):
            self.inner.setdefault(o.args[0].id, {})[o.args[1]] = o
            o = o.args[0]
        if o.op == "attr":
            self.held[o.id] = o

    def nested_changes(self, base, items, depth):
        """Keys of the object whose values were changed in place."""
        ks = []
        found = {}
        for b in leaves(base):
            for k, x in self.inner.get(b.id, {}).items():
                if k not in items and k not in found and \
                        self.freeze(x, depth + 1) is not x:
                    found[k] = x
        for k in sorted(found, key=lambda x: x.id):
            def value(b):
                x = self.inner.get(b.id, {}).get(k)
                old = self.base_get(HObj("dict", b, {}), k)
                if x is None:
                    return old
                # where it was changed the key is there
                return map_leaves(lambda y: old if y is x else y,
                                  self.freeze(x, depth + 1))
            ks += [k, map_leaves(value, base)]
        return ks

    def freeze_obj(self, t, o, depth):
        if o.kind == "list":
            return self.freeze_term(o.base, depth + 1)
        if o.kind == "copy" and not o.items:
            return self.freeze_term(o.base, depth + 1)
        if o.kind in ("dict", "copy", "obj") or o.kind == "set":
            if o.kind == "obj" and t.op != "ref":
                # overlay on an unknown object: identity plus changes
                if not o.items and not self.inner:
                    return o.base
            ks = []
            if self.inner and o.base is not ABSENT:
                ks = list(self.nested_changes(o.base, o.items, depth))
            for k in sorted(o.items, key=lambda x: x.id):
                v = self.freeze(o.items[k], depth + 1)
                if v is ABSENT and o.base is ABSENT:
                    continue
                ks += [k, v]
            base = map_leaves(lambda b: self.freeze_term(b, depth + 1),
                              o.base)
            if not ks and base is not ABSENT:
                return base if t.op == "ref" or o.kind != "obj" else o.base
            ls = leaves(base)
            b0 = next(iter(ls))
            if all(b.op == "dict" and b.args[0] is not ABSENT
                   and b.args[1::2] == b0.args[1::2] for b in ls) and all(
                    const_key(k) for k in ks[::2] + list(b0.args[1::2])):
                # the stores under the same keys
                kv = {k: map_leaves(lambda b: b.args[2 + 2 * i], base)
                      for i, k in enumerate(b0.args[1::2])}
                kv.update(zip(ks[::2], ks[1::2]))
                ks = [y for k in sorted(kv, key=lambda x: x.id)
                      for y in (k, kv[k])]
                base = map_leaves(lambda b: b.args[0], base)
            known = {self.repo.return_keys(b.data[0]) if b.op == "call"
                     else None for b in leaves(base)}
            if len(known) == 1 and None not in known and all(
                    const_key(k) for k in ks[::2]):
                kv = {k: map_leaves(lambda b: self.t_index(b, k), base)
                      for k in map(const, sorted(known.pop()))}
                kv.update(zip(ks[::2], ks[1::2]))
                return mk("dict", (ABSENT, *[
                    y for k in sorted(kv, key=lambda x: x.id)
                    if kv[k] is not ABSENT for y in (k, kv[k])]))
            return mk("dict", (base, *ks))
        if o.kind == "inst":
            if t.op != "ref":
                return t
            ks = []
            for k in sorted(o.items, key=lambda x: attr_name(x)):
                ks += [k, self.freeze(o.items[k], depth + 1)]
            nm = o.cls.name if o.cls else "obj"
            if o.base is not ABSENT:
                return mk("instof", (o.base,), nm)
            return mk("inst", tuple(ks), nm)
        return opaque("object " + o.kind)

    def freeze_term(self, t, depth=0):
        """Freeze refs nested inside a sequence-valued term."""
        if t.op == "ite":
            return map_leaves(lambda x: self.freeze_term(x, depth), t)
        if t.op in ("list", "tuple", "concat"):
            return mk_seq(t.op, [self.freeze(a, depth + 1) for a in t.args])
        if t.op == "ref":
            return self.freeze(t, depth + 1)
        return t

    def freeze_py(self, t, depth):
        o = unpy(t)
        if isinstance(o, Func):
            fi = o.fi
            key = self.fkey(fi)
            if key and o.frame is None and (key in self.boundaries or not
                                            isinstance(fi.node, ast.Lambda)):
                return mk("fnref", (), "fn:" + fi.name)
            # closure: value of the body on symbolic parameters
            try:
                return self.lambda_term(o)
            except Unsupported:
                return opaque("closure")
        if isinstance(o, Bound):
            return mk("boundref", (self.freeze(o.self_val, depth + 1),),
                      o.fi.name)
        if isinstance(o, Ext):
            return mk("extref", (), o.name)
        if isinstance(o, Cls):
            return mk("clsref", (), o.ci.name)
        if isinstance(o, Partial):
            return mk("partial", tuple(
                [self.freeze(o.f, depth + 1)]
                + [self.freeze(a, depth + 1) for a in o.args]
                + [self.freeze(v, depth + 1) for _, v in
                   sorted(o.kwargs.items())]),
                tuple(sorted(o.kwargs)))
        return t

    def lambda_term(self, o):
        a = o.fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        ps = [sym(f"λ{len(self.stack)}.{i}") for i in range(len(names))]
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported("depth")
        ev, pc, heap = self.events, self.st.pc, dict(self.st.heap)
        self.events = []
        self.st.pc = TRUE
        try:
            v = self.freeze(self.call_func(o, ps, {}, None))
        finally:
            self.events, self.st.pc, self.st.heap = ev, pc, heap
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Unsupported("lambda signature")
        lvl = 1 + max([x.data for x in walk(v) if x.op == "bv"] or [0])
        m = {p.id: mk("bv", (), lvl + i) for i, p in enumerate(ps)}
        return mk("lambda", (subst(v, m),), (len(ps), lvl))

    # ------------------------------------------------------------ evaluation
    def rv(self, t):
        """Operand value: objects replaced by their contents."""
        return self.freeze(t)

    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}", e)
        t = m(e)
        return self.note(t, e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, complex):
            return mul(const(v.imag), IMAG)
        if isinstance(v, float):
            seg = None
            try:
                seg = Fraction(repr(v))
            except ValueError:
                return sym("float:" + repr(v))
            return const(seg)
        return const(v)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def lookup(self, name, e=None):
        f = self.fr
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.parent
        r = self.fr.module.resolve(name)
        return self.resolved(r, name, e)

    def resolved(self, r, name, e=None):
        if isinstance(r, FuncInfo):
            return pyobj(Func(r), ("func", id(r)))
        if isinstance(r, ClassInfo):
            return pyobj(Cls(r), ("cls", id(r)))
        if isinstance(r, ModuleInfo):
            return pyobj(Mod(r), ("mod", r.name))
        if isinstance(r, tuple) and r[0] == "const":
            return self.module_const(r[1], r[3], r[2])
        if isinstance(r, str):
            return self.ext_value(r)
        if name in lib.BUILTINS:
            return ext(lib.canon(name))
        return mk("unboundname", (), "")

    def ext_value(self, dotted):
        c = lib.constant(dotted)
        if c is not None:
            return c
        return ext(lib.canon(dotted))

    def leftovers(self):
        """Shared variables that hold what earlier calls left."""
        from .rules import shared
        try:
            return shared.leftovers(self.repo)
        except AnalysisBroken:
            return ()

    def module_const(self, mod, name, expr):
        k = (mod.name, name)
        if k in self.module_cache:
            return self.module_cache[k]
        if ("module", mod.name, name) in self.leftovers():
            v = mk("leftover", (), mod.name + "." + name)
        elif expr is None:
            v = mk("modvar", (), mod.name + "." + name)
        else:
            self.stack.append(Frame(mod))
            pc, self.st.pc = self.st.pc, TRUE
            ev, self.events = self.events, []
            try:
                v = self.eval(expr)
            except Unsupported:
                v = mk("modvar", (), mod.name + "." + name)
            finally:
                self.stack.pop()
                self.st.pc = pc
                self.events = ev
            if v.op == "ref":
                # module level containers are shared: keep by reference, but
                # visible in every state
                self.module_refs = getattr(self, "module_refs", {})
                self.module_refs[v.id] = self.st.heap[v.id]
        self.module_cache[k] = v
        return v

    def e_Tuple(self, e):
        return self.seq_display("tuple", e.elts)

    def e_List(self, e):
        return self.new_list(self.seq_display("list", e.elts))

    def seq_display(self, op, elts):
        parts, cur = [], []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                items = self.concrete_items(v)
                if items is not None:
                    cur += items
                else:
                    parts.append(mk(op, tuple(cur)))
                    cur = []
                    parts.append(self.rv(v))
            else:
                cur.append(self.eval(x))
        t = mk(op, tuple(cur))
        if not parts:
            return t
        parts.append(t)
        return mk_seq("concat", parts)

    def e_Set(self, e):
        t = self.seq_display("list", e.elts)
        return mk("set", tuple(sorted(set(t.args), key=lambda x: x.id))) \
            if t.op == "list" else mk("setof", (t,))

    def e_Dict(self, e):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v))
            else:
                kk = self.rv(self.eval(k))
                self.store_key(d, kk, self.eval(v), e, fresh=True)
        return d

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.rv(self.eval(v.value))
                fmt = None
                if v.format_spec is not None:
                    fmt = self.rv(self.eval(v.format_spec))
                if v.conversion != -1 or fmt is not None:
                    x = mk("fmt", (x, fmt or NONE), v.conversion)
                parts.append(x)
        return fstr(parts)

    def e_FormattedValue(self, e):
        return fstr([self.rv(self.eval(e.value))])

    def e_BinOp(self, e):
        a, b = self.eval(e.left), self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if op == "Add" or op == "Mult":
            r = self.seq_binop(op, a, b)
            if r is not None:
                return r
        if op == "BitOr":
            oa = self.hobj(a) if a.op == "ref" else None
            if oa is not None and oa.kind == "dict":
                d = self.alloc(HObj("dict", oa.base, dict(oa.items)))
                self.dict_update(d, b)
                return d
        a, b = self.rv(a), self.rv(b)
        return lib.arith(self, op, a, b)

    def seq_binop(self, op, a, b):
        if op == "Add":
            if strish(a) or strish(b):
                return fstr([self.rv(a), self.rv(b)])
            fa, fb = self.seq_of(a), self.seq_of(b)
            if fa is not None or fb is not None:
                if fa is None:
                    fa = self.rv(a)
                if fb is None:
                    fb = self.rv(b)
                t = _dist2(lambda x, y: mk_seq("concat", [x, y]), fa, fb)
                if a.op == "tuple":
                    return t
                return self.new_list(t)
        elif op == "Mult":
            fa = self.seq_of(a)
            if fa is not None and fa.op in ("list", "tuple"):
                n = self.rv(b)
                if is_num(n) and num(n).denominator == 1 and \
                        0 <= num(n) < 40:
                    t = mk(fa.op, fa.args * int(num(n)))
                    return self.new_list(t) if fa.op == "list" else t
                return self.new_list(mk("repeat", (self.freeze_term(fa), n)))
            if strish(a):
                return mk("call", (self.rv(a), self.rv(b)), ("strmul", ()))
        return None

    def seq_of(self, t):
        """Sequence term held by a list object or tuple, else None."""
        if t.op in ("tuple", "list", "concat", "collect"):
            return t
        if t.op == "ref":
            o = self.hobj(t)
            if o and o.kind == "list":
                return o.base
        if t.op == "ite" and not is_bool(t):
            ls = [self.seq_of(x) for x in leaves(t)]
            if all(x is not None for x in ls):
                return map_leaves(self.seq_of, t)
        return None

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return bnot(self.as_bool(v))
        v = self.rv(v)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return lib.invert(v)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.as_bool(v)
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: v
                                   if not is_bool(v) else FALSE)
            return self.branch(c, lambda: v if not is_bool(v) else TRUE,
                               lambda: go(i + 1))
        return go(0)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            res = band(res, self.as_bool(self.compare(op, left, right)))
            left = right
        return res

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ("Is", "IsNot"):
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                r = self.is_none(x)
            else:
                fa, fb = self.rv(a), self.rv(b)
                r = self.yes_or_no(fa, fb)
                r = eq(fa, fb) if r is None else r
            return bnot(r) if n == "IsNot" else r
        if n in ("In", "NotIn"):
            r = self.contains(a, b)
            return bnot(r) if n == "NotIn" else r
        if n in ("Eq", "NotEq"):
            if b is NONE or a is NONE:
                r = self.is_none(a if b is NONE else b)
            else:
                fa, fb = self.rv(a), self.rv(b)
                r = self.yes_or_no(fa, fb)
                r = eq(fa, fb) if r is None else r
            return bnot(r) if n == "NotEq" else r
        a, b = self.rv(a), self.rv(b)
        a, b = lib.setlike(a), lib.setlike(b)
        return {"Lt": lambda: lt(a, b), "Gt": lambda: lt(b, a),
                "LtE": lambda: le(a, b), "GtE": lambda: le(b, a)}[n]()

    def yes_or_no(self, a, b):
        """Comparison of an on/off parameter with True or False."""
        if a.op == "sym" and a.id in self.opts.get("yesno", ()):
            a, b = b, a
        elif not (b.op == "sym" and b.id in self.opts.get("yesno", ())):
            return None
        return self.as_bool(b) if a is TRUE else bnot(self.as_bool(b)) \
            if a is FALSE else None

    def is_none(self, x):
        def f(v):
            o = self.hobj(v)
            if o is not None and o.kind != "obj":
                return FALSE
            if v.op == "call" and self.repo.never_none(v.data[0]):
                return FALSE
            if v.op == "index" and v.args[0].op == "call" and \
                    self.repo.full_items(v.args[0].data[0]):
                return FALSE
            if v.op == "index" and v.args[0].op == "whereidx":
                return FALSE
            return isnone(v)
        return map_leaves(f, x) if not is_bool(x) else FALSE

    def contains(self, k, c):
        if c.op == "ite" and not is_bool(c):
            return map_leaves(lambda x: self.contains(k, x), c)
        k = self.rv(k)
        if k.op == "ite" and not is_bool(k):
            return map_leaves(lambda x: self.contains(x, c), k)
        o = self.hobj(c)
        if o is not None and o.kind in ("dict", "obj", "copy"):
            res = self.contains_atom(k, o.base) if o.base is not ABSENT \
                else FALSE
            for kk, v in o.items.items():
                if kk.op == "const" and kk.data[0] == "attrname":
                    continue
                p = map_leaves(lambda x: FALSE if x is ABSENT else TRUE, v)
                res = ite(eq(k, kk), p, res)
            return res
        if o is not None and o.kind == "list":
            return map_leaves(lambda b: self.contains_seq(k, b), o.base)
        return map_leaves(lambda b: self.contains_seq(k, b), self.rv(c))

    def contains_seq(self, k, b):
        if b.op in ("list", "tuple", "set"):
            return bany(eq(k, self.rv(x)) for x in b.args)
        if b.op == "concat":
            return bany(self.contains_seq(k, x) for x in b.args)
        if b.op == "call" and b.data[0] in ("set", "list", "sorted",
                                            "tuple", "frozenset"):
            return self.contains_seq(k, b.args[0])
        if b.op == "setof":
            return self.contains_seq(k, b.args[0])
        return self.contains_atom(k, b)

    def as_bool(self, v):
        return map_leaves(self._as_bool, v)

    def _as_bool(self, v):
        if v is TRUE or v is FALSE:
            return v
        if v is NONE or v is ABSENT:
            return FALSE
        o = self.hobj(v)
        if o is not None:
            if o.kind == "list":
                return map_leaves(self.seq_truth, o.base)
            if o.kind == "dict":
                if o.base is ABSENT:
                    return bany(map_leaves(
                        lambda x: FALSE if x is ABSENT else TRUE, x)
                        for x in o.items.values())
                if not o.items:
                    return map_leaves(lambda b: FALSE if b is ABSENT else
                                      self.seq_truth(b), o.base)
                if any(x is not ABSENT and not any(
                        y is ABSENT for y in leaves(x))
                        for x in o.items.values()):
                    return TRUE
                return atom(mk("truth", (self.rv(v),)))
            if o.kind == "inst":
                return TRUE
            if o.kind == "copy" and not o.items:
                return self.as_bool(o.base)
            return atom(mk("truth", (self.rv(v),)))
        return self.seq_truth(v)

    def seq_truth(self, v):
        if v.op == "const":
            d = v.data
            if d[0] == "num":
                return FALSE if d[1] == 0 else TRUE
            return TRUE if d[1] else FALSE
        if v.op in ("tuple", "list", "set"):
            return TRUE if v.args else FALSE
        if v.op == "concat":
            return bany(self.seq_truth(x) for x in v.args)
        if v.op == "collect":
            return lib.t_any(v.args[0], v.args[1], v.data)
        if v.op == "rat":
            return bnot(eq(v, ZERO))
        if v.op == "fstr":
            return TRUE
        if v.op in ("pyobj", "inst"):
            return TRUE
        if v.op == "call" and v.data[0] in lib.BOOL_FUNCS:
            return atom(v)
        if v.op in ("call", "loopout") and is_int(v):
            return bnot(eq(v, ZERO))
        return atom(mk("truth", (v,)))

    def e_IfExp(self, e):
        c = self.as_bool(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body),
                           lambda: self.eval(e.orelse))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.set_local(e.target.id, v)
        return v

    def e_Attribute(self, e):
        o = self.eval(e.value)
        return self.getattr(o, e.attr, e)

    def e_Lambda(self, e):
        fi = FuncInfo(e, self.fr.module, None, "<lambda>")
        return pyobj(Func(fi, self.fr))

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.rv(self.eval(x))
        return mk_slice(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval(e.slice)
        v = self.index(o, k, e)
        if v.op == "ite" and self.st.pc is not TRUE and any(
                x.op == "indexerror" for x in leaves(v)):
            # an access that fails does not continue on this path
            w = constrain(v, self.st.pc)
            if w is not UNDEF and not any(x.op == "indexerror"
                                          for x in leaves(w)):
                return w
        return v

    def e_Await(self, e):
        raise Unsupported("await", e)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, e=None):
        if o.op == "ite" and not is_bool(o):
            return map_leaves(lambda x: self.getattr(x, name, e), o)
        p = unpy(o)
        if p is not None:
            return self.getattr_py(o, p, name, e)
        if o.op == "call" and o.data[0].startswith("cls:"):
            v = self.plain_attr(o, name)
            if v is not None:
                return v
        h = self.hobj(o)
        ak = attr_key(name)
        if h is not None:
            if ak in h.items:
                v = h.items[ak]
                return map_leaves(
                    lambda x: mk("missingattr", (), name)
                    if x is ABSENT else x, v)
            if h.kind == "inst":
                fi = h.cls.find(name) if h.cls else None
                if fi is not None:
                    return self.method_value(o, fi)
                if h.cls is not None:
                    c = h.cls.find_const(name)
                    if c is not None:
                        return self.class_const(c[0], name, c[1])
                if name == "__dict__":
                    return mk("instdict", (o,))
                if name == "__class__":
                    return pyobj(Cls(h.cls), ("cls", id(h.cls)))
                if h.base is not ABSENT:
                    return mk("attr", (h.base,), name)
                return mk("missingattr", (), name)
            if h.kind in ("dict", "list", "copy"):
                if h.kind != "dict":
                    return lib.attr(self, self.rv(o), name)
                return mk("boundmeth", (o,), name)
        return lib.attr(self, o, name)

    def plain_attr(self, o, name):
        """Attribute of an instance kept as a call: part of an argument."""
        cs = [m.classes[o.data[0][4:]] for m in self.repo.modules.values()
              if o.data[0][4:] in m.classes]
        r = self.repo.plain_attr(cs[0], name) if len(cs) == 1 else None
        if r is None or r[0] not in o.data[1]:
            return None
        v = o.args[len(o.args) - len(o.data[1]) + o.data[1].index(r[0])]
        for k in r[1]:
            v = self.t_index(v, const(k))
        return v

    def method_value(self, o, fi):
        d = fi.decorators
        if any(x.split(".")[-1] == "property" or "cached_property" in x
               for x in d):
            return self.call_fi(fi, [o], {}, None)
        if "staticmethod" in d:
            return pyobj(Func(fi), ("func", id(fi)))
        return pyobj(Bound(fi, o), ("bound", id(fi), o.id))

    def class_const(self, ci, name, expr):
        k = (ci.module.name, ci.name, name)
        if k in self.module_cache:
            return self.module_cache[k]
        if ("class", ci.name, name) in self.leftovers():
            v = self.module_cache[k] = mk("leftover", (),
                                          ci.name + "." + name)
            return v
        self.stack.append(Frame(ci.module))
        pc, self.st.pc = self.st.pc, TRUE
        try:
            v = self.eval(expr)
        finally:
            self.stack.pop()
            self.st.pc = pc
        self.module_cache[k] = v
        return v

    def getattr_py(self, o, p, name, e):
        if isinstance(p, Mod):
            return self.resolved(p.mi.resolve(name) if not isinstance(
                self.repo.modules.get(p.mi.name + "." + name), ModuleInfo)
                or name in p.mi.functions or name in p.mi.imports
                else self.repo.modules[p.mi.name + "." + name], name, e)
        if isinstance(p, Ext):
            return self.ext_value(p.name + "." + name)
        if isinstance(p, Cls):
            fi = p.ci.find(name)
            if fi is not None:
                if "classmethod" in fi.decorators:
                    return pyobj(Bound(fi, o), ("bound", id(fi), o.id))
                return pyobj(Func(fi), ("func", id(fi)))
            c = p.ci.find_const(name)
            if c is not None:
                return self.class_const(c[0], name, c[1])
            if name == "__name__":
                return const(p.ci.name)
            return mk("attr", (o,), name)
        if isinstance(p, Super):
            h = self.hobj(p.self_val)
            fi = h.cls.find(name, after=p.after) if h and h.cls else None
            if fi is None:
                return ext("object." + name)
            return pyobj(Bound(fi, p.self_val), ("bound", id(fi),
                                                 p.self_val.id))
        if isinstance(p, (Func, Bound)):
            return mk("attr", (self.freeze(o),), name)
        return mk("attr", (o,), name)

    def setattr(self, o, name, v, node=None):
        if o.op == "ite" and not is_bool(o):
            for leaf in leaves(o):
                c = map_leaves(lambda x: TRUE if x is leaf else FALSE, o)
                self.branch(c, lambda: self.setattr(leaf, name, v, node),
                            lambda: None)
            return
        ak = attr_key(name)
        h = self.hobj(o)
        if h is None:
            h = HObj("obj", o)
        old = h.items.get(ak)
        if old is None:
            old = mk("attr", (h.base,), name) if h.base is not ABSENT \
                else ABSENT
        self.st.heap[o.id] = h.with_item(ak, self.gated(v, old))
        self.event("setattr", name, (o, v), node)

    # -------------------------------------------------------------- indexing
    def index(self, o, k, node=None):
        if o.op == "ite" and not is_bool(o):
            return map_leaves(lambda x: self.index(x, k, node), o)
        h = self.hobj(o)
        if h is None:
            fk = self.rv(k)
            if o.op in ("tuple", "list") and (is_num(fk)
                                              or fk.op == "slice"):
                return seq_index(o, fk)
            return self.dist_index(o, fk)
        if h.kind == "list":
            fk = self.rv(k)
            b = h.base
            r = map_leaves(lambda x: self.list_index(x, fk), b)
            if fk.op == "slice" and not any(l.op == "ref" for l in leaves(r)):
                return self.new_list(r)
            return r
        if h.kind in ("dict", "obj", "copy"):
            fk = self.rv(k)
            if fk.op == "ite" and not is_bool(fk):
                return map_leaves(lambda x: self.dict_index(o, h, x), fk)
            return self.dict_index(o, h, fk)
        if h.kind == "inst":
            fi = h.cls.find("__getitem__") if h.cls else None
            if fi is not None:
                return self.call_fi(fi, [o, k], {}, node)
        return self.dist_index(self.rv(o), self.rv(k))

    def list_index(self, b, k):
        if b.op in ("list", "tuple") and (is_num(k) or k.op == "slice"):
            return seq_index(b, k)
        return self.t_index(self.freeze_term(b), k)

    def dict_index(self, o, h, k):
        if k in h.items:
            v = h.items[k]
            if h.base is not ABSENT and any(x is ABSENT for x in leaves(v)):
                # the key is stored on some paths only
                under = map_leaves(lambda b: mk("keyerror", (k,))
                                   if b is ABSENT else self.t_index(b, k),
                                   h.base)
                return map_leaves(lambda x: under if x is ABSENT else x, v)
            return map_leaves(lambda x: mk("keyerror", (k,))
                              if x is ABSENT else x, v)
        base = FALSE
        if h.base is not ABSENT:
            base = map_leaves(lambda b: mk("keyerror", (k,))
                              if b is ABSENT else self.t_index(b, k), h.base)
        else:
            base = mk("keyerror", (k,))
        if k.op == "const" or (k.op == "tuple" and all(
                x.op == "const" for x in k.args)):
            ks = [x for x in h.items if x.op != "const" and not (
                x.op == "tuple" and all(y.op == "const" for y in x.args))]
            if not ks:
                return base
        items = [x for x in h.items if not (x.op == "const" and
                                            x.data[0] == "attrname")]
        if not items:
            return base
        if len(items) > 24:
            return self.t_index(self.rv(o), k)
        r = base
        for kk in items:
            v = map_leaves(lambda x: mk("keyerror", (k,))
                           if x is ABSENT else x, h.items[kk])
            r = ite(eq(k, kk), v, r)
        return r

    def dist_index(self, o, k):
        if o.op == "ite" and not is_bool(o):
            return map_leaves(lambda x: self.dist_index(x, k), o)
        if k.op == "ite" and not is_bool(k):
            return map_leaves(lambda x: self.t_index(o, x), k)
        return self.t_index(o, k)

    def t_index(self, o, k):
        if o.op == "ite" and not is_bool(o):
            return map_leaves(lambda x: self.t_index(x, k), o)
        return t_index(o, k)

    def store_key(self, o, k, v, node=None, fresh=False):
        if o.op == "ite" and not is_bool(o):
            for leaf in leaves(o):
                c = map_leaves(lambda x: TRUE if x is leaf else FALSE, o)
                self.branch(c, lambda: self.store_key(leaf, k, v, node),
                            lambda: None)
            return
        if k.op == "ite" and not is_bool(k):
            for leaf in leaves(k):
                c = map_leaves(lambda x: TRUE if x is leaf else FALSE, k)
                self.branch(c, lambda: self.store_key(o, leaf, v, node),
                            lambda: None)
            return
        h = self.hobj(o)
        if h is None:
            h = HObj("obj", o)
        self.note_inner(o)
        if not fresh:
            self.event("mutate", "setitem", (o, k, v), node)
        if h.kind == "list":
            b = h.base
            if b.op == "list" and is_num(k) and \
                    -len(b.args) <= num(k) < len(b.args):
                a = list(b.args)
                i = int(num(k))
                a[i] = self.gated(v, a[i])
                self.st.heap[o.id] = h.with_base(mk("list", tuple(a)))
                return
            nb = mk("dstore", (self.freeze_term(b), k, self.freeze(v)))
            self.st.heap[o.id] = h.with_base(self.gated(nb, b))
            return
        if h.kind == "inst":
            fi = h.cls.find("__setitem__") if h.cls else None
            if fi is not None:
                self.call_fi(fi, [o, k, v], {}, node)
                return
        if const_key(k) and (h.kind == "dict" or k.op != "const"
                             or k.data[0] == "str"):
            old = h.items.get(k)
            if old is None:
                old = self.base_get(HObj("dict", h.base, h.items), k)
            self.st.heap[o.id] = h.with_item(k, self.gated(v, old))
            return
        # symbolic key (or array element): functional store
        cur = self.freeze_obj_as_dict(o, h)
        nb = store_term(cur, k, self.freeze(v))
        attrs = {a: b for a, b in h.items.items()
                 if a.op == "const" and a.data[0] == "attrname"}
        kind = h.kind
        self.st.heap[o.id] = HObj(kind, self.gated(nb, cur), attrs, h.cls)

    def freeze_obj_as_dict(self, o, h):
        its = {k: v for k, v in h.items.items()
               if not (k.op == "const" and k.data[0] == "attrname")}
        if not its:
            return h.base
        return self.freeze_obj(o if o.op == "ref" else mk("ref", (), -1),
                               HObj("dict", h.base, its), 0)

    def dict_update(self, d, other, node=None):
        h = self.hobj(d)
        if h is None:
            h = HObj("obj", d)
        if other.op == "ite" and not is_bool(other):
            for leaf in leaves(other):
                c = map_leaves(lambda x: TRUE if x is leaf else FALSE, other)
                self.branch(c, lambda: self.dict_update(d, leaf, node),
                            lambda: None)
            return
        o = self.hobj(other)
        ks = self.repo.return_keys(other.data[0]) if o is None and \
            other.op == "call" else None
        if ks is not None:
            for k in sorted(ks):
                self.store_key(d, const(k), self.t_index(other, const(k)),
                               fresh=True)
            return
        if o is not None and o.kind in ("dict", "obj", "copy"):
            if o.base is not ABSENT:
                self._update_base(d, o.base)
            for k, v in o.items.items():
                if k.op == "const" and k.data[0] == "attrname":
                    continue
                if any(x is ABSENT for x in leaves(v)):
                    c = map_leaves(lambda x: FALSE if x is ABSENT else TRUE,
                                   v)
                    hh = self.hobj(d)
                    old = hh.items.get(k)
                    if old is None:
                        old = self.base_get(HObj("dict", hh.base, hh.items),
                                            k)
                    nv = ite(c, v, old)
                    self.st.heap[d.id] = hh.with_item(
                        k, self.gated(nv, old))
                else:
                    self.store_key(d, k, v, fresh=True)
            return
        self._update_base(d, self.rv(other))

    def _update_base(self, d, b):
        if b.op == "ite" and not is_bool(b):
            for leaf in leaves(b):
                c = map_leaves(lambda x: TRUE if x is leaf else FALSE, b)
                self.branch(c, lambda: self._update_base(d, leaf),
                            lambda: None)
            return
        if b is ABSENT:
            return
        if b.op == "dict":
            self._update_base(d, b.args[0])
            for i in range(1, len(b.args), 2):
                k, v = b.args[i], b.args[i + 1]
                hh = self.hobj(d) or HObj("obj", d)
                old = hh.items.get(k)
                if old is None:
                    old = self.base_get(HObj("dict", hh.base, hh.items), k)
                nv = map_leaves(lambda x: old if x is ABSENT else x, v) \
                    if not any(l is ABSENT for l in leaves(v)) else \
                    ite(map_leaves(lambda x: FALSE if x is ABSENT else TRUE,
                                   v), v, old)
                self.st.heap[d.id] = hh.with_item(k, self.gated(nv, old))
            return
        h = self.hobj(d) or HObj("obj", d)
        self.note_inner(d)
        items = {}
        for k, v in h.items.items():
            if k.op == "const" and k.data[0] == "attrname":
                items[k] = v
                continue
            items[k] = ite(self.contains_atom(k, b), self.t_index(b, k), v)
        nb = b if h.base is ABSENT else dunion(h.base, b)
        self.st.heap[d.id] = HObj(h.kind, self.gated(nb, h.base), items,
                                  h.cls)

    # ----------------------------------------------------------------- calls
    def e_Call(self, e):
        c = mapped(e)
        if c is not None and e.func.id not in self.fr.env:
            return self.eval(c)
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" \
                and not e.args:
            f = self.fr
            while f is not None and f.self_val is None:
                f = f.parent
            if f is None:
                raise Unsupported("super() outside method", e)
            return pyobj(Super(f.self_val, f.cls),
                         ("super", f.self_val.id, id(f.cls)))
        if isinstance(e.func, ast.Attribute):
            inst = namespace_of(e.func.value)
            if inst is not None and e.func.attr == "update":
                return self.set_attributes(inst, e)
            o = self.eval(e.func.value)
            args, kwargs = self.eval_args(e)
            return self.call_method(o, e.func.attr, args, kwargs, e)
        f = self.eval(e.func)
        args, kwargs = self.eval_args(e)
        return self.call(f, args, kwargs, e)

    def set_attributes(self, inst, e):
        """vars(x).update(d): the attributes named by the keys are set."""
        for src in [a for a in e.args] + [
                k.value for k in e.keywords if k.arg is None]:
            tgt = ast.parse("for __k, __v in D.items():\n"
                            "    setattr(X, __k, __v)").body[0]
            tgt.iter.func.value = src
            tgt.body[0].value.args[0] = inst
            for n in ast.walk(tgt):
                if not hasattr(n, "lineno") or n.lineno <= 2:
                    ast.copy_location(n, e)
            self.exec(tgt)
        for k in e.keywords:
            if k.arg is not None:
                self.setattr(self.eval(inst), k.arg, self.eval(k.value), e)
        return NONE

    def eval_args(self, e):
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                items = self.concrete_items(v)
                if items is None and v.op == "call":
                    n = self.repo.return_length(v.data[0])
                    items = n and [self.index(v, const(i)) for i in range(n)]
                if items is None:
                    args.append(mk("starred", (self.rv(v),)))
                else:
                    args += items
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                self.spread_kwargs(self.eval(k.value), kwargs, e)
            else:
                kwargs[k.arg] = self.eval(k.value)
        return args, kwargs

    def spread_kwargs(self, v, kwargs, e):
        h = self.hobj(v)
        if h is not None and h.kind in ("dict", "copy", "obj"):
            for k, x in h.items.items():
                if is_str(k):
                    kwargs[k.data[1]] = x
            if h.base is not ABSENT:
                self.spread_base(h.base, kwargs)
            return
        if v.op == "ite":
            v = self.rv(v)
            ls = leaves(v)
            if all(x.op == "dict" for x in ls):
                # one keyword per key, whichever the dictionary
                keys = {}
                for x in ls:
                    for i in range(1, len(x.args), 2):
                        if is_str(x.args[i]):
                            keys[x.args[i].id] = x.args[i]

                def val(x, k):
                    for i in range(1, len(x.args), 2):
                        if x.args[i] is k:
                            return x.args[i + 1]
                    return self.base_get(HObj("dict", x.args[0], {}), k)
                for k in keys.values():
                    kwargs.setdefault(k.data[1], map_leaves(
                        lambda x: val(x, k), v))
                base = map_leaves(lambda x: x.args[0], v)
                if base is not ABSENT:
                    self.spread_base(base, kwargs)
                return
        self.spread_base(v, kwargs)

    def spread_base(self, b, kwargs):
        if b.op == "dict":
            for i in range(1, len(b.args), 2):
                if is_str(b.args[i]):
                    kwargs.setdefault(b.args[i].data[1], b.args[i + 1])
            b = b.args[0]
            if b is ABSENT:
                return
        if "**" in kwargs:
            kwargs["**"] = mk("dunion", (kwargs["**"], b))
        else:
            kwargs["**"] = b

    def call(self, f, args, kwargs, e=None):
        if f.op == "ite" and not is_bool(f):
            return self.call_leaves(
                f, lambda x: self.call(x, args, kwargs, e))
        p = unpy(f)
        if isinstance(p, Func):
            return self.call_func(p, args, kwargs, e)
        if isinstance(p, Bound):
            return self.call_fi(p.fi, [p.self_val] + args, kwargs, e)
        if isinstance(p, Cls):
            return self.instantiate(p.ci, args, kwargs, e)
        if isinstance(p, Ext):
            return self.call_ext(p.name, args, kwargs, e)
        if isinstance(p, Partial):
            kw = dict(p.kwargs)
            kw.update(kwargs)
            return self.call(p.f, list(p.args) + args, kw, e)
        h = self.hobj(f)
        if h is not None and h.kind == "inst" and h.cls is not None:
            fi = h.cls.find("__call__")
            if fi is not None:
                return self.call_fi(fi, [f] + args, kwargs, e)
        if f.op == "boundmeth":
            return self.call_method(f.args[0], f.data, args, kwargs, e)
        if f.op == "lambda" and not kwargs and len(args) == f.data[0]:
            m = {mk("bv", (), f.data[1] + i).id: self.rv(a)
                 for i, a in enumerate(args)}
            return subst(f.args[0], m)
        if f.op == "attr":
            return self.call_unknown_method(f.args[0], f.data, args, kwargs,
                                            e)
        fargs = [self.rv(a) for a in args]
        fk = {k: self.rv(v) for k, v in sorted(kwargs.items())}
        self.ncalls += 1
        if f.op == "boundref":
            return app("meth", (f.data, tuple(fk)), [f.args[0]] + fargs
                       + list(fk.values()))
        if f.op == "call" and f.data[0] == "joblib.delayed" and \
                f.args[0].op == "fnref":
            # a call to be made later: arguments by the names of parameters
            fi = self.repo.only_function(f.args[0].data[3:])
            if fi is not None:
                b = self.bind(fi, args, kwargs, e)
                fargs, fk = [], {k: self.rv(v) for k, v in b.items()}
        elif f.op == "index" and f.args[0].op == "call":
            # one of the classes a function gives
            fi = self.repo.item_init(f.args[0].data[0])
            if fi is not None and not any(x.op == "starred" for x in args):
                b = self.bind(fi, [NONE] + args, kwargs, e)
                fargs, fk = [], {k: self.rv(v)
                                 for k, v in list(b.items())[1:]}
        t = app("apply", tuple(fk), [self.rv(f)] + fargs + list(fk.values()))
        self.event("apply", "apply", (self.rv(f), *fargs), e)
        self.taint_call("apply:" + show(f, 3))
        return t

    def call_leaves(self, f, g):
        """Call each leaf of a gated callee under its own condition."""
        ls = leaves(f)
        if len(ls) > 40:
            return opaque("too many callees")

        def rec(i):
            if i == len(ls) - 1:
                return g(ls[i])
            c = map_leaves(lambda x: TRUE if x is ls[i] else FALSE, f)
            return self.branch(c, lambda: g(ls[i]), lambda: rec(i + 1))
        return rec(0)

    def call_method(self, o, name, args, kwargs, e=None):
        if o.op == "ite" and not is_bool(o):
            return self.call_leaves(
                o, lambda x: self.call_method(x, name, args, kwargs, e))
        p = unpy(o)
        if p is not None:
            return self.call(self.getattr(o, name, e), args, kwargs, e)
        h = self.hobj(o)
        if h is not None:
            if h.kind == "inst" or attr_key(name) in h.items:
                f = self.getattr(o, name, e)
                return self.call(f, args, kwargs, e)
            m = getattr(lib, f"m_{h.kind}_{name}", None)
            if h.kind == "obj":
                m = getattr(lib, f"m_dict_{name}", None)
                if name in ("get", "items", "keys", "values", "copy") and \
                        not h.items:
                    m = None
                if name in lib.ARRAY_METHODS and name not in (
                        "copy",):
                    m = None
            if m is not None:
                r = m(self, o, h, args, kwargs, e)
                if r is not None:
                    return r
            v = self.rv(o)
            return self.call_unknown_method(v, name, args, kwargs, e, src=o)
        return self.call_unknown_method(o, name, args, kwargs, e)

    def call_unknown_method(self, o, name, args, kwargs, e=None, src=None):
        if o.op == "ite" and not is_bool(o):
            return map_leaves(lambda x: self.call_unknown_method(
                x, name, args, kwargs, e), o)
        m = getattr(lib, f"m_any_{name}", None)
        if m is not None:
            r = m(self, o, args, kwargs, e, src)
            if r is not None:
                return r
        if o.op == "call" and o.data[0].startswith("cls:"):
            fi = self.class_method(o.data[0][4:], name)
            if fi is not None:
                b = self.bind(fi, [o] + list(args), kwargs, e)
                vals = [self.rv(v) for v in b.values()]
                head = "m:" + name
                t = app("call", (head, tuple(b)), vals)
                self.event("call", head, tuple(vals), e)
                self.taint_call(head)
                self.seen_calls.add(head)
                return t
        if name == "add_argument":
            # texts shown to the user
            kwargs = {k: v for k, v in kwargs.items()
                      if k not in ("help", "metavar")}
        fargs = [self.rv(a) for a in args]
        fk = {k: self.rv(v) for k, v in sorted(kwargs.items())}
        self.ncalls += 1
        t = app("meth", (name, tuple(fk)), [o] + fargs + list(fk.values()))
        ev = self.event("methcall", name, (o, *fargs, *fk.values()), e)
        ev.kws = tuple(fk)
        if name not in lib.PURE_METHODS:
            self.taint_call("." + name)
        return t

    def class_method(self, cname, name):
        for m in self.repo.modules.values():
            c = m.classes.get(cname)
            if c is not None:
                return c.find(name)
        return None

    def call_ext(self, name, args, kwargs, e=None):
        if name == "argparse.ArgumentParser":
            kwargs = {k: v for k, v in kwargs.items()
                      if k not in ("description", "epilog")}
        if len(args) == 1 and name in ("min", "max", "any", "all", "sum",
                                       "tuple", "list", "sorted") and \
                args[0].id in self.known_len:
            args = [mk("tuple", tuple(self.concrete_items(args[0])))]
        h = lib.FUNCS.get(name) or lib.lal_insert(name)
        if h is not None:
            r = h(self, args, kwargs, e)
            if r is not None:
                return r
        fargs = [self.rv(a) for a in args]
        fk = {k: self.rv(v) for k, v in sorted(kwargs.items())}
        fargs, fk = lib.bind_ext(name, fargs, fk)
        self.ncalls += 1
        t = app("call", (name, tuple(fk)), fargs + list(fk.values()))
        self.event("extcall", name, (*fargs, *fk.values()), e)
        if name not in lib.PURE and not name.startswith("numpy."):
            self.taint_call(name)
        return t

    def taint_call(self, name):
        """Remember calls that may raise, for enclosing try statements."""
        for tr in self.tries:
            tr["calls"].add(name)

    def fkey(self, fi):
        return fi.module.name.replace(self.repo.package + ".", "", 1) \
            + ":" + fi.qual

    def is_boundary(self, fi):
        if self.fkey(fi) in self.opts.get("inline", ()):
            return False
        return (self.fkey(fi) in self.boundaries
                or (fi.cls is not None and "." + fi.name in self.boundaries)
                or (fi.cls is None and fi.name in self.boundaries
                    and not isinstance(fi.node, ast.Lambda)))

    def call_func(self, f, args, kwargs, e=None):
        return self.call_fi(f.fi, args, kwargs, e, parent=f.frame)

    def dc_fields(self, ci):
        """(name, default, class) of the fields of a dataclass, in order."""
        flds = []
        for c in reversed(ci.mro()):
            for f in c.fields:
                flds = [x for x in flds if x[0] != f[0]] + [(f[0], f[1], c)]
        return flds

    def instantiate(self, ci, args, kwargs, e=None):
        if "cls:" + ci.name in self.boundaries:
            init = ci.find("__init__")
            if init is not None:
                b = self.bind(init, [NONE] + list(args), kwargs, e)
                names = [n for n in b if n != next(iter(b))]
                vals = [self.rv(b[n]) for n in names]
                t = app("call", ("cls:" + ci.name, tuple(names)), vals)
            elif ci.is_dataclass and "**" not in kwargs and not any(
                    a.op == "starred" for a in args):
                names, vals = [], []
                left = dict(kwargs)
                for i, (n, dflt, c) in enumerate(self.dc_fields(ci)):
                    v = args[i] if i < len(args) else left.pop(n, None)
                    if v is None:
                        v = self.class_const(c, n, dflt) \
                            if dflt is not None else mk("missingarg", (), n)
                    names.append(n)
                    vals.append(self.rv(v))
                if left or len(args) > len(names):
                    self.problems.append((self.where(e),
                                          f"{ci.name}({sorted(left)})"))
                t = app("call", ("cls:" + ci.name, tuple(names)), vals)
            else:
                fa = [self.rv(a) for a in args]
                fk = {k: self.rv(v) for k, v in sorted(kwargs.items())}
                t = app("call", ("cls:" + ci.name, tuple(fk)),
                        fa + list(fk.values()))
            self.event("call", "cls:" + ci.name, (t,), e)
            if not ci.is_dataclass or ci.find("__init__") or \
                    ci.find("__post_init__"):
                self.taint_call("cls:" + ci.name)
            return t
        unk = ci.unknown_bases()
        o = self.alloc(HObj("inst", ABSENT, {}, ci))
        init = ci.find("__init__")
        if ci.is_dataclass and init is None:
            flds = self.dc_fields(ci)
            for i, (n, dflt, c) in enumerate(flds):
                if i < len(args):
                    v = args[i]
                elif n in kwargs:
                    v = kwargs[n]
                elif "**" in kwargs:
                    v = t_index(kwargs["**"], const(n))
                elif dflt is not None:
                    v = self.class_const(c, n, dflt)
                else:
                    v = mk("missingarg", (), n)
                self.st.heap[o.id] = self.hobj(o).with_item(attr_key(n), v)
            bad = [k for k in kwargs if k != "**" and k not in
                   [f[0] for f in flds]]
            if bad or len(args) > len(flds):
                self.problems.append((self.where(e), f"{ci.name}({bad})"))
            self.event("new", ci.name, (o,), e)
            return o
        if init is not None:
            self.call_fi(init, [o] + list(args), kwargs, e)
        elif unk:
            fa = [self.rv(a) for a in args]
            fk = {k: self.rv(v) for k, v in sorted(kwargs.items())}
            return app("call", ("cls:" + ci.name, tuple(fk)),
                       fa + list(fk.values()))
        self.event("new", ci.name, (o,), e)
        return o

    def bind(self, fi, args, kwargs, e=None):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        star = kwargs.pop("**", None)
        args = list(args)
        tail = None
        stars = [i for i, x in enumerate(args) if x.op == "starred"]
        if stars and (stars[0] < len(names)):
            # f(a, *rest): the remaining parameters come from rest
            if stars[0] != len(args) - 1:
                raise Unsupported("symbolic *args", e)
            tail = (stars[0], args.pop().args[0])
        extra = args[len(names):]
        for n, v in zip(names, args):
            out[n] = v
        nd = len(a.defaults)
        defaults = {}
        for n, d in zip(names[len(names) - nd:], a.defaults):
            defaults[n] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        allnames = names + [x.arg for x in a.kwonlyargs]
        for n in allnames:
            if n in out:
                if n in kwargs:
                    self.problems.append((self.where(e), f"duplicate {n}"))
                continue
            if n in kwargs:
                out[n] = kwargs.pop(n)
                continue
            dv = None
            if n in defaults:
                dv = self.eval_default(fi, defaults[n])
            if star is not None or tail is not None:
                k = const(n)
                if star is not None:
                    dv = self.t_index(star, k) if dv is None and (
                        tail is None or n not in names) else \
                        ite(self.contains_atom(k, star),
                            self.t_index(star, k), dv
                            if dv is not None else mk("missingarg", (), n))
                if tail is not None and n in names:
                    # (a required argument has to come from here)
                    i = const(names.index(n) - tail[0])
                    dv = self.t_index(tail[1], i) if dv is None else ite(
                        lt(i, lib.n_len(tail[1])), self.t_index(tail[1], i),
                        dv)
                out[n] = dv
            elif dv is not None:
                out[n] = dv
            else:
                self.problems.append((self.where(e),
                                      f"{fi.qual}: missing argument {n}"))
                out[n] = mk("missingarg", (), n)
        if a.vararg:
            if tail is not None:
                out[a.vararg.arg] = t_index(tail[1], mk_slice(
                    const(len(names) - tail[0]), NONE, NONE))
            elif any(x.op == "starred" for x in extra):
                out[a.vararg.arg] = mk_seq("concat", [
                    x.args[0] if x.op == "starred" else mk("tuple", (x,))
                    for x in extra])
            else:
                out[a.vararg.arg] = mk("tuple", tuple(extra))
        elif extra:
            self.problems.append((self.where(e),
                                  f"{fi.qual}: too many arguments"))
        if a.kwarg:
            out[a.kwarg.arg] = self.new_dict(
                {const(k): v for k, v in kwargs.items()},
                base=ABSENT if star is None else star)
        elif kwargs:
            self.problems.append((self.where(e), f"{fi.qual}: unexpected "
                                  f"arguments {sorted(kwargs)}"))
        return out

    def eval_default(self, fi, d):
        self.stack.append(Frame(fi.module))
        pc, self.st.pc = self.st.pc, TRUE
        try:
            return self.eval(d)
        finally:
            self.stack.pop()
            self.st.pc = pc

    def items_read(self, fi, name, d):
        """The dictionary display without items that the function, whose
        parameter this is, cannot see."""
        ks = effects.keys_read(fi, name)
        if ks is None:
            return d
        kv = [(k, v) for k, v in zip(d.args[1::2], d.args[2::2])
              if not is_str(k) or k.data[1] in ks]
        return mk("dict", (ABSENT, *[x for p in kv for x in p]))

    def call_fi_root(self, fi, args, kwargs):
        return self.call_fi(fi, args, kwargs, None, None, root=True)

    def call_fi(self, fi, args, kwargs, e=None, parent=None, root=False):
        self.ncalls += 1
        if not root and self.is_boundary(fi):
            b = self.bind(fi, args, kwargs, e)
            head = ("m:" if fi.cls is not None else "fn:") + fi.name
            vals = [self.rv(v) for v in b.values()]
            names, wr, me = list(b), (), None
            if head not in INPLACE:
                vals = [v if v.op != "dict" or v.args[0] is not ABSENT else
                        self.items_read(fi, n, v)
                        for n, v in zip(names, vals)]
            neutral = self.opts.get("neutral", {}).get(head, ())
            vals = [const("") if n in neutral else v
                    for n, v in zip(names, vals)]
            if fi.cls is not None and "staticmethod" not in fi.decorators \
                    and b:
                # attributes set so far that the method reads, and those
                # that it may set
                me = next(iter(b.values()))
                h = self.hobj(me)
                if h is not None and h.kind == "inst" and h.base is not \
                        ABSENT:
                    rd, wr = effects.summary(self.repo, fi)
                    for k in sorted(h.items, key=attr_name):
                        n = attr_name(k)
                        if n in rd:
                            v = self.rv(h.items[k])
                            if v.op == "attr" and v.data == n:
                                continue
                            names.append("self." + n)
                            vals.append(v)
                else:
                    me = None
            t = app("call", (head, tuple(names)), vals)
            self.event("call", head, tuple(vals), e)
            if head in INPLACE and b:
                # the function fills its first argument and returns it
                o = next(iter(b.values()))
                h = self.hobj(o)
                if h is not None and h.kind == "dict" and o.op == "ref":
                    old = self.freeze(o)
                    self.st.heap[o.id] = HObj("dict", self.gated(t, old))
                    t = o
            if me is not None and wr:
                h = self.hobj(me)
                for n in sorted(wr):
                    k = attr_key(n)
                    old = h.items.get(k)
                    if old is None:
                        old = mk("attr", (h.base,), n)
                    new = map_leaves(lambda x: mk("post", (x,), n), t)
                    h = h.with_item(k, self.gated(new, old))
                self.st.heap[me.id] = h
            self.taint_call(head)
            self.seen_calls.add(head)
            self.seen_boundaries.add(self.fkey(fi))
            hook = self.opts.get("on_boundary")
            if hook:
                hook(self, fi, b, t)
            return t
        n = sum(1 for f in self.stack if f.fi is fi)
        if n >= 2 or len(self.stack) > self.MAXDEPTH:
            b = self.bind(fi, args, kwargs, e)
            return app("call", ("rec:" + fi.name, tuple(b)),
                       [self.rv(v) for v in b.values()])
        for x in ast.walk(fi.node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                raise Unsupported("generator " + fi.qual, x)
        b = self.bind(fi, args, kwargs, e)
        if not root and isinstance(e, ast.Call):
            self.own_arguments(fi, e, b)
        self.inlined[self.fkey(fi)] = fi
        fr = Frame(fi.module, fi, parent)
        fr.env.update(b)
        if fi.cls is not None and "staticmethod" not in fi.decorators and b:
            fr.self_val = next(iter(b.values()))
        self.stack.append(fr)
        try:
            pc_in = self.st.pc
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body)
                fr.rets.append((self.st.pc, v))
                self.st.pc = FALSE
            else:
                self.exec_body(fi.node.body)
                if self.st.pc is not FALSE:
                    fr.rets.append((self.st.pc, NONE))
            out, val = FALSE, None
            for c, v in reversed(fr.rets):
                val = v if val is None else ite(c, v, val)
                out = bor(out, c)
            self.st.pc = out
            if val is None:
                val = UNDEF
            elif out is not FALSE and val.op == "ite":
                val = constrain(val, out)
            return val
        finally:
            self.stack.pop()

    # ------------------------------------------------------------ statements
    def exec_body(self, body):
        for s in body:
            if self.st.pc is FALSE:
                return
            self.exec(s)

    def exec(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}", s)
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Import(self, s):
        for a in s.names:
            r = a.asname or a.name.split(".")[0]
            d = a.name if a.asname else a.name.split(".")[0]
            v = self.repo.resolve_dotted(d)
            self.set_local(r, self.resolved(v, r) if v is not None
                           else ext(d))

    def s_ImportFrom(self, s):
        base = self.fr.module._from_base(s)
        for a in s.names:
            v = self.repo.resolve_dotted(base + "." + a.name)
            self.set_local(a.asname or a.name,
                           self.resolved(v, a.name) if v is not None
                           else mk("unboundname", (), base + "." + a.name))

    def s_FunctionDef(self, s):
        fi = FuncInfo(s, self.fr.module, None,
                      (self.fr.fi.qual + "." if self.fr.fi else "") + s.name)
        self.set_local(s.name, pyobj(Func(fi, self.fr)))

    def s_ClassDef(self, s):
        raise Unsupported("local class", s)

    def s_Global(self, s):
        raise Unsupported("global", s)

    s_Nonlocal = s_Global

    def s_Assert(self, s):
        c = self.as_bool(self.eval(s.test))
        self.branch(c, lambda: None,
                    lambda: self.do_raise("AssertionError", s))

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value), s)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.set_local(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            o = self.own_object(t.value, self.eval(t.value))
            k = self.rv(self.eval(t.slice))
            self.store_key(o, k, v, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            st = [i for i, x in enumerate(t.elts)
                  if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                for j in range(i):
                    self.assign(t.elts[j], self.unpack(v, j, n), s)
                tail = n - i - 1
                seq = self.index(v, mk_slice(const(i), const(-tail)
                                             if tail else NONE, NONE))
                self.assign(t.elts[i].value, seq, s)
                for j in range(i + 1, n):
                    self.assign(t.elts[j],
                                self.index(v, const(j - n)), s)
                return
            if n <= 4 and stable(v):
                # taken apart somewhere: it has that many elements
                self.known_len.setdefault(v.id, n)
            vals = [self.unpack(v, i, n) for i in range(n)]
            for x, y in zip(t.elts, vals):
                self.assign(x, y, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)
        else:
            raise Unsupported("assignment target", t)

    def own_object(self, target, o):
        """Give a computed value an identity before it is stored into."""
        def computed(x):
            return x.op in ("rat", "call", "apply", "meth", "dstore") or \
                is_num(x)
        if is_bool(o) or self.hobj(o) is not None:
            return o
        full = o
        if o.op == "ite" and self.gate() is not FALSE:
            # only the value on the paths still running is stored into
            live = constrain(o, self.st.pc)
            o = full if live is UNDEF else live
        if self.hobj(o) is not None or not all(
                computed(x) and self.hobj(x) is None for x in leaves(o)) \
                or is_bool(o):
            return o
        if isinstance(target, ast.Name):
            if self.fr.env.get(target.id) is not full:
                return o
            r = self.alloc(HObj("copy", o))
            self.fr.env[target.id] = r if o is full else self.gated(r, full)
            return r
        if isinstance(target, ast.Attribute):
            b = self.eval(target.value)
            h = self.hobj(b)
            if h is not None and h.kind == "inst" and \
                    h.items.get(attr_key(target.attr)) is o:
                r = self.alloc(HObj("copy", o))
                self.st.heap[b.id] = h.with_item(attr_key(target.attr), r)
                return r
        return o

    def own_arguments(self, fi, e, b):
        """Give the caller's computed values an identity when the function
        stores into them."""
        st = stored_params(fi)
        if not st:
            return
        ps = list(b)
        if fi.cls is not None and "staticmethod" not in fi.decorators and \
                isinstance(e.func, ast.Attribute):
            ps = ps[1:]
        pairs = [(p, x) for p, x in zip(ps, e.args)
                 if not isinstance(x, ast.Starred)]
        pairs += [(k.arg, k.value) for k in e.keywords if k.arg]
        for p, x in pairs:
            if p in st and p in b and isinstance(x, (ast.Name,
                                                     ast.Attribute)):
                v = b[p]
                if self.hobj(v) is None and not is_bool(v):
                    b[p] = self.own_object(x, v)

    def unpack(self, v, i, n):
        return self.index(v, const(i))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, t)
            new = self.augmented(op, old, self.eval(s.value), s)
            self.set_local(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.getattr(o, t.attr, t)
            new = self.augmented(op, old, self.eval(s.value), s)
            self.setattr(o, t.attr, new, s)
        elif isinstance(t, ast.Subscript):
            o = self.own_object(t.value, self.eval(t.value))
            k = self.rv(self.eval(t.slice))
            old = self.index(o, k, t)
            new = self.augmented(op, old, self.eval(s.value), s)
            self.store_key(o, k, new, s)
        else:
            raise Unsupported("augmented target", t)

    def augmented(self, op, old, v, s):
        o = self.hobj(old)
        if o is not None and o.kind == "list" and op == "Add":
            lib.m_list_extend(self, old, o, [v], {}, s)
            return old
        if o is not None and o.kind == "dict" and op == "BitOr":
            self.dict_update(old, v)
            return old
        self.event("inplace", op, (old, v), s)
        return self.binop(op, old, v)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr.env[t.id] = UNDEF
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.rv(self.eval(t.slice))
                self.event("mutate", "delitem", (o, k), s)
                h = self.hobj(o) or HObj("obj", o)
                self.st.heap[o.id] = h.with_item(
                    k, self.gated(ABSENT, h.items.get(k, ABSENT)))
            else:
                raise Unsupported("del", s)

    def s_If(self, s):
        c = self.as_bool(self.eval(s.test))
        self.branch(c, lambda: self.exec_body(s.body),
                    lambda: self.exec_body(s.orelse))

    def s_Return(self, s):
        v = NONE if s.value is None else self.eval(s.value)
        fr = self.fr
        fr.rets.append((self.st.pc, v))
        fr.pending = bor(fr.pending, self.st.pc)
        self.st.pc = FALSE

    def s_Raise(self, s):
        name = "reraise"
        if s.exc is not None:
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(x)
            if isinstance(s.exc, ast.Call):
                for a in s.exc.args:
                    self.eval(a)
        self.do_raise(name, s)

    def do_raise(self, name, s):
        if self.st.pc is FALSE:
            return
        if self.tries:
            tr = self.tries[-1]
            if tr["active"]:
                tr["raised"].append((self.st.pc, name,
                                     dict(self.st.heap)))
                tr["frames"][-1] if tr["frames"] else None
                self.fr.pending = self.fr.pending
                self.st.pc = FALSE
                return
        self.event("raise", name, (), s)
        self.st.pc = FALSE

    def s_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, lib.enter(self, v), s)
            self.event("enter", "with", (self.rv(v),), s)
        self.exec_body(s.body)
        for it in s.items:
            self.event("exit", "with", (), s)

    def s_Try(self, s):
        pc0 = self.st.pc
        heap0, env0 = dict(self.st.heap), dict(self.fr.env)
        tr = {"calls": set(), "raised": [], "active": True, "frames": [],
              "depth": len(self.stack)}
        self.tries.append(tr)
        try:
            self.exec_body(s.body)
        finally:
            self.tries.pop()
        if self.tries:
            self.tries[-1]["calls"] |= tr["calls"] if not s.handlers else \
                set()
        explicit = bany(c for c, _, _ in tr["raised"])
        hs = []
        for h in s.handlers:
            hs.append(ast.unparse(h.type) if h.type is not None else "")
        if hs == ["FileNotFoundError"]:
            # not raised by looking at what has been read
            tr["calls"] = {x for x in tr["calls"] if not (
                x.startswith(".") and x[1:] in lib.IN_MEMORY)}
        if tr["calls"]:
            implicit = atom(mk("raises", (), (tuple(sorted(tr["calls"])),
                                              tuple(sorted(hs)))))
        elif not tr["raised"]:
            implicit = atom(mk("raises", (), ((), tuple(sorted(hs)))))
        else:
            implicit = FALSE
        # a return inside the body: completes only if nothing was raised
        cexc = bor(explicit, band(implicit, pc0))
        if s.handlers:
            fr = self.fr
            nret = len(fr.rets)
            ok = bnot(cexc)
            pcb, hb, eb, pb = (self.st.pc, self.st.heap, fr.env, fr.pending)
            # returns made in the body are conditional on no exception
            base_rets = []
            for i, (c, v) in enumerate(fr.rets):
                base_rets.append((band(c, bnot(band(implicit, pc0)))
                                  if i >= tr.get("nret0", 0) and
                                  self._in_body(s, i, nret) else c, v))
            fr.rets = base_rets
            # handlers
            self.st.pc = band(pc0, cexc)
            self.st.heap, fr.env = dict(heap0), dict(env0)
            fr.pending = FALSE if pb is FALSE else pb
            self.exec_handlers(s, tr, hs)
            pch, hh, eh, ph = (self.st.pc, self.st.heap, fr.env, fr.pending)
            # else part
            self.st.pc = band(pcb, ok)
            self.st.heap, fr.env = hb, eb
            fr.pending = pb
            if self.st.pc is not FALSE:
                self.exec_body(s.orelse)
            pcb, hb, eb, pb = (self.st.pc, self.st.heap, fr.env, fr.pending)
            self.st.pc = bor(pcb, pch)
            fr.pending = bor(pb, ph)
            self.st.heap = self.merge_heap(cexc, hh, hb)
            env = {}
            for k in list(eh) + [k for k in eb if k not in eh]:
                a, b = eh.get(k, UNDEF), eb.get(k, UNDEF)
                env[k] = a if a is b else ite(cexc, a, b)
            fr.env = env
        else:
            for c, name, _ in tr["raised"]:
                pc, self.st.pc = self.st.pc, c
                self.do_raise(name, s)
                self.st.pc = pc
        if s.finalbody:
            pc = self.st.pc
            pend, self.fr.pending = self.fr.pending, FALSE
            self.st.pc = pc0
            self.exec_body(s.finalbody)
            self.st.pc = pc
            self.fr.pending = pend

    def _in_body(self, s, i, nret):
        return True

    def exec_handlers(self, s, tr, hs):
        # one handler is taken; which one is decided by the type
        def rec(i):
            if i == len(s.handlers):
                self.do_raise("unhandled", s)
                return
            h = s.handlers[i]
            run = lambda: self.exec_handler(h, tr)
            if i == len(s.handlers) - 1:
                run()
            else:
                c = atom(mk("handles", (), (hs[i], tuple(sorted(
                    tr["calls"])))))
                self.branch(c, run, lambda: rec(i + 1))
        rec(0)

    def exec_handler(self, h, tr):
        if h.name:
            self.set_local(h.name, mk("exc", (), ast.unparse(h.type)
                                      if h.type else ""))
        self.exec_body(h.body)

    # ----------------------------------------------------------------- loops
    def concrete_items(self, v):
        """Elements of v if statically known, else None."""
        if v.op in ("tuple", "list"):
            return list(v.args)
        n = self.known_len.get(v.id)
        if n is not None:
            return [t_index(v, const(i)) for i in range(n)]
        if v.op == "set":
            return list(v.args)
        if v.op == "concat":
            out = []
            for a in v.args:
                x = self.concrete_items(a)
                if x is None:
                    return None
                out += x
            return out
        if v.op == "ref":
            o = self.hobj(v)
            if o.kind == "list":
                return self.concrete_items(o.base) \
                    if o.base.op != "ite" else None
            if o.kind == "dict" and o.base is ABSENT and all(
                    const_key(k) for k in o.items) and not any(
                    x is ABSENT for y in o.items.values()
                    for x in leaves(y)):
                return list(o.items)
        if v.op == "range":
            a = v.args
            if all(is_num(x) for x in a):
                r = range(*[int(num(x)) for x in a])
                if len(r) <= self.MAXUNROLL:
                    return [const(i) for i in r]
        if v.op == "zipped":
            cols = [self.concrete_items(x) for x in v.args]
            if all(c is not None for c in cols):
                return [mk("tuple", tuple(r)) for r in zip(*cols)]
        if v.op == "enumerated":
            c = self.concrete_items(v.args[0])
            if c is not None and is_num(v.args[1]):
                s = int(num(v.args[1]))
                return [mk("tuple", (const(i + s), x))
                        for i, x in enumerate(c)]
        if v.op == "dictitems":
            c = self.concrete_items(v.args[0])
            if c is not None:
                return [mk("tuple", (k, self.index(v.args[0], k)))
                        for k in c]
        if v.op == "dictvalues":
            c = self.concrete_items(v.args[0])
            if c is not None:
                return [self.index(v.args[0], k) for k in c]
        return None

    def cond_items(self, v):
        """Items of a dict with conditionally present constant keys."""
        src = v.args[0] if v.op in ("dictitems", "dictvalues") else v
        o = self.hobj(src) if src.op == "ref" else None
        if o is None or o.kind != "dict" or o.base is not ABSENT:
            return None
        if not all(const_key(k) for k in o.items):
            return None
        out = []
        for k, x in o.items.items():
            p = map_leaves(lambda y: FALSE if y is ABSENT else TRUE, x)
            val = self.index(src, k)
            if v.op == "dictitems":
                out.append((p, mk("tuple", (k, val))))
            elif v.op == "dictvalues":
                out.append((p, val))
            else:
                out.append((p, k))
        return out

    def domain(self, v):
        """(dom term, element function idx->term) of a symbolic iterable."""
        if v.op == "zipped":
            doms = [self.domain(x) for x in v.args]
            return doms[0][0], lambda i: mk("tuple", tuple(
                self.elem_at(x, i, d) for x, d in zip(v.args, doms)))
        if v.op == "enumerated":
            d, f = self.domain(v.args[0])
            return d, lambda i: mk("tuple", (add(i, v.args[1]), f(i)))
        if v.op == "dictitems":
            d, f = self.domain(v.args[0])

            def items(i):
                k = f(i)
                return mk("tuple", (k, self.index(v.args[0], k)))
            return d, items
        if v.op == "dictvalues":
            d, f = self.domain(v.args[0])
            return d, lambda i: self.index(v.args[0], f(i))
        if v.op == "range":
            lo, hi, st = v.args
            if st is ONE:
                n = sub(hi, lo)
                if n.op == "call" and n.data[0] == "len":
                    d = n.args[0]
                else:
                    d = mk("range", (ZERO, n, ONE))
                return d, lambda i: add(lo, i)
            return v, lambda i: t_index(v, i)
        x = self.rv(v)
        while x.op == "call" and x.data[0] in ("list", "tuple", "iter") \
                and len(x.args) == 1:
            x = x.args[0]
        if x.op == "collect" and x.args[1] is TRUE:
            bv = mk("bv", (), x.data)
            el = x.args[2]
            return x.args[0], lambda i: subst(el, {bv.id: i})
        if x.op == "collect":
            bv = mk("bv", (), x.data)
            return x, lambda i: t_index(x, i)
        if x.op == "dcollect" and x.args[1] is TRUE:
            bv = mk("bv", (), x.data)
            el = x.args[2]
            return x.args[0], lambda i: subst(el, {bv.id: i})
        if x.op == "dict" and x.args[0] is not ABSENT:
            return x, lambda i: t_index(mk("keysof", (x,)), i)
        if x.op == "dstore_each":
            return self.domain(x.args[0])
        return x, lambda i: t_index(x, i)

    def elem_at(self, x, i, d):
        return d[1](i)

    def s_For(self, s):
        if s.orelse:
            self.exec_body(without_else(s))
            return
        c = endless_count(s)
        if c is not None and self.freeze(
                self.eval(s.iter.func)) is mk("extref", (), "itertools.count"):
            self.exec_body(c)
            return
        it = self.eval(s.iter)
        self.run_for(it, lambda v: self.assign(s.target, v, s),
                     lambda: self.exec_body(s.body), s)

    def run_for(self, it, bind, body, s):
        items = self.concrete_items(it)
        if items is not None:
            self.unroll([(TRUE, x) for x in items], bind, body, s)
            return
        if it.op == "ite" or (it.op == "ref" and self.hobj(it).kind == "list"
                              and self.hobj(it).base.op == "ite"):
            v = it if it.op == "ite" else self.hobj(it).base
            ls = leaves(v)
            if len(ls) <= 6:
                def rec(i):
                    if i == len(ls) - 1:
                        self.run_for(ls[i], bind, body, s)
                        return
                    c = map_leaves(lambda x: TRUE if x is ls[i] else FALSE,
                                   v)
                    self.branch(c, lambda: self.run_for(ls[i], bind, body, s),
                                lambda: rec(i + 1))
                rec(0)
                return
        ci = self.cond_items(it)
        if ci is not None:
            self.unroll(ci, bind, body, s)
            return
        if it.op not in ("zipped", "enumerated", "dictitems", "dictvalues",
                         "range"):
            x = self.rv(it)
            if x.op == "collect" and x.args[1] is not TRUE:
                # over the selected elements: over all, skipping the others
                dom, guard, elem = x.args
                bv = mk("bv", (), x.data)
                cur = []

                def first(v):
                    cur[:] = [v]

                def chosen():
                    i = cur[0]
                    self.branch(subst(guard, {bv.id: i}),
                                lambda: (bind(subst(elem, {bv.id: i})),
                                         body()), lambda: None)
                self.symbolic_loop(dom, first, chosen, s,
                                   pos=True)
                return
        self.symbolic_loop(it, bind, body, s)

    def unroll(self, items, bind, body, s):
        fr = self.fr
        rec = {"brk": FALSE, "cont": FALSE, "kind": "unroll"}
        fr.loops.append(rec)
        pend_in = fr.pending
        for p, x in items:
            if self.st.pc is FALSE:
                break
            rec["cont"] = FALSE

            def one():
                bind(x)
                body()
            if p is TRUE:
                one()
            else:
                self.branch(p, one, lambda: None)
            # join the paths that executed `continue`
            self.st.pc = bor(self.st.pc, rec["cont"])
            self.rebuild_pending(rec, pend_in)
        fr.loops.pop()
        self.st.pc = bor(self.st.pc, rec["brk"])
        rec["brk"] = FALSE
        self.rebuild_pending(rec, pend_in)

    def rebuild_pending(self, rec, pend_in):
        fr = self.fr
        p = bor(pend_in, bany(c for c, _ in fr.rets))
        for r in fr.loops:
            p = bor(p, bor(r["brk"], r["cont"] if r is not rec else FALSE))
        fr.pending = p

    def s_Break(self, s):
        fr = self.fr
        if not fr.loops:
            raise Unsupported("break", s)
        fr.loops[-1]["brk"] = bor(fr.loops[-1]["brk"], self.st.pc)
        fr.pending = bor(fr.pending, self.st.pc)
        self.st.pc = FALSE

    def s_Continue(self, s):
        fr = self.fr
        fr.loops[-1]["cont"] = bor(fr.loops[-1]["cont"], self.st.pc)
        fr.pending = bor(fr.pending, self.st.pc)
        self.st.pc = FALSE

    def s_While(self, s):
        if s.orelse:
            self.exec_body(without_else(s))
            return
        c = tested_loop(s)
        if c is not None:
            self.exec_body(c)
            return
        c = counting_loop(s, self.fr.fi.node if self.fr.fi else s)
        if c is not None:
            self.exec_body(c)
            return
        self.symbolic_loop(None, lambda v: None,
                           lambda: self.exec_body(s.body), s, test=s.test)

    def snapshot(self):
        return (dict(self.st.heap), dict(self.fr.env), self.st.pc,
                self.fr.pending, len(self.events), list(self.fr.rets))

    def restore(self, sn):
        self.st.heap, self.fr.env = dict(sn[0]), dict(sn[1])
        self.st.pc, self.fr.pending = sn[2], sn[3]
        del self.events[sn[4]:]
        self.fr.rets = list(sn[5])

    def symbolic_loop(self, it, bind, body, s, test=None, pos=False):
        fr = self.fr
        sn = self.snapshot()
        pc0 = self.st.pc
        starts = test is not None and plain_test(test) and \
            band(pc0, bnot(self.as_bool(self.eval(test)))) is FALSE
        self.restore(sn)
        if it is not None:
            dom, elem = self.domain(it)
            if pos:
                dom, elem = it, lambda i: i
        else:
            dom, elem = None, None
        mus = {}          # slot -> (mu term, init)
        derived = {}      # slot -> (slot it is a part of, which part)
        for attempt in range(10):
            self.restore(sn)
            idx = mk("idx", (dom,) if dom is not None else (), fresh_id())
            for slot, (mu, init) in mus.items():
                self.set_slot(slot, mu)
            for slot, (whole, k) in derived.items():
                self.set_slot(slot, t_index(mus[whole][0], k))
            self.st.pc = TRUE
            fr.pending = FALSE
            fr.rets = []
            rec = {"brk": FALSE, "cont": FALSE, "kind": "sym"}
            fr.loops.append(rec)
            exit_c = FALSE
            start = self.snapshot()
            tests = TRUE
            if test is not None:
                tests = self.as_bool(self.eval(test))
                self.st.pc = tests
            if self.st.pc is not FALSE:
                if elem is not None:
                    bind(elem(idx))
                body()
            fr.loops.pop()
            self.st.pc = bor(self.st.pc, rec["cont"])
            new = [x for x in self.changed_slots(start, mus)
                   if x[0] not in derived]
            if not new:
                if test is None or not self.derived_slots(mus, derived):
                    break
                continue
            for slot, init in new:
                mus[slot] = (mk("mu", (), fresh_id()), init)
        else:
            raise Unsupported("loop does not stabilise", s)
        for slot, (whole, k) in derived.items():
            if self.get_slot(slot) is not t_index(self.get_slot(whole), k):
                raise Unsupported("loop does not stabilise", s)
        if starts and tests is not TRUE:
            # a condition that holds at the start and whenever the end of
            # the body is reached
            if band(self.st.pc, bnot(self.as_bool(self.eval(test)))) is FALSE:
                self.restore(sn)
                return self.symbolic_loop(it, bind, body, s, None, pos)
        brk = rec["brk"]
        body_events = self.events[sn[4]:]
        body_rets = fr.rets
        end_pc = self.st.pc
        alive = bor(bor(end_pc, brk), bany(c for c, _ in body_rets))
        if alive is FALSE:
            alive = TRUE
        nexts = {}
        for slot, (mu, init) in mus.items():
            v = self.get_slot(slot)
            nexts[slot] = self.freeze_term(v) if slot[0] == "heapbase" \
                else self.freeze(v)
            if alive is not TRUE:
                # the value is of no interest when an exception ended it
                nexts[slot] = constrain(nexts[slot], alive)
        inits = {}
        final_heap = dict(self.st.heap)
        self.restore(sn)
        # objects allocated in the body stay reachable through values
        for k, o in final_heap.items():
            if k not in self.st.heap:
                self.st.heap[k] = o
        for slot, (mu, init) in mus.items():
            inits[slot] = self.freeze_term(init) if slot[0] == "heapbase" \
                else self.freeze(init)
        exits = bor(brk, bany(c for c, _ in body_rets))
        out = {}
        allmu = {mu.id: slot for slot, (mu, _) in mus.items()}
        for slot in mus:
            out[slot] = self.summarise(slot, mus, nexts, inits, dom, idx,
                                       exits, allmu, tests)
        # events
        raised = FALSE
        body_events = joined(body_events)
        for ev in body_events:
            self.close_event(ev, dom, idx, allmu, out, mus, nexts, inits,
                             exits, tests, pc0)
            if ev.kind == "raise":
                raised = bor(raised, ev.guard)
        self.events[sn[4]:] = [e for e in body_events
                               if e.guard is not FALSE]
        for slot, (whole, k) in derived.items():
            self.set_slot_final(slot, t_index(out[whole], k))
        for slot, v in out.items():
            self.set_slot_final(slot, v)
        # returns inside the loop: one of them ends it
        cum = FALSE
        if len(body_rets) > 1:
            c, v = FALSE, UNDEF
            for c1, v1 in reversed(body_rets):
                v = ite(c1, constrain(self.freeze(v1), c1), v)
                c = bor(c, c1)
            body_rets = [(c, constrain(v, c))]
        for c, v in body_rets:
            g = self.close_guard(c, dom, idx, allmu, mus, nexts, inits,
                                 exits, tests)
            val = self.loop_first(c, constrain(self.freeze(v), c), dom, idx,
                                  allmu, mus, nexts, inits, exits, tests)
            g = band(pc0, g)
            fr.rets.append((g, val))
            fr.pending = bor(fr.pending, g)
            cum = bor(cum, g)
        self.st.pc = band(pc0, bnot(bor(cum, raised)))
        if dom is None and tests is TRUE and brk is FALSE:
            # 'while True' without break is only left by return or raise
            self.st.pc = FALSE

    # loop slots ------------------------------------------------------------
    def derived_slots(self, mus, derived):
        """Variables that hold, before the loop and after every step of it,
        one item of what another variable holds."""
        found = False
        def made(t, ops):
            return all(x.op in ops for x in leaves(t))
        ok = {s for s in mus if s[0] == "env" and made(mus[s][1], (
            "call", "index", "meth", "apply", "attr"))}
        for slot in sorted(ok, key=repr):
            init, v = mus[slot][1], self.get_slot(slot)
            one = leaves(init)[0]
            if one.op != "index" or one.args[1].op != "const":
                continue
            k = one.args[1]
            for w in sorted(ok, key=repr):
                if w == slot or w not in mus or init is not t_index(
                        mus[w][1], k):
                    continue
                nw = self.get_slot(w)
                if made(nw, ("call", "meth", "apply")) and \
                        v is t_index(nw, k):
                    derived[slot] = (w, k)
                    del mus[slot]
                    found = True
                    break
        return found

    def changed_slots(self, start, mus):
        heap0, env0 = start[0], start[1]
        out = []
        for k, v0 in env0.items():
            v = self.fr.env.get(k, UNDEF)
            if v is not v0 and ("env", k) not in mus:
                out.append((("env", k), v0))
        for oid, o0 in heap0.items():
            o = self.st.heap.get(oid)
            if o is o0 or o is None:
                continue
            if o.base is not o0.base and ("heapbase", oid) not in mus:
                out.append((("heapbase", oid), o0.base))
            for k in set(o.items) | set(o0.items):
                a = o0.items.get(k)
                b = o.items.get(k)
                if a is b or ("heapitem", oid, k.id) in mus:
                    continue
                if a is None:
                    a = self.base_get(o0, k)
                out.append((("heapitem", oid, k.id), a))
        # overlays created in the body on outer unknown objects
        for oid, o in self.st.heap.items():
            if oid in heap0:
                continue
            t = tm.node(oid)
            if t.op == "ref":
                continue
            if o.kind == "obj":
                b = o.base
                for k, v in o.items.items():
                    if ("heapitem", oid, k.id) not in mus:
                        a = self.base_get(HObj("obj", t), k)
                        out.append((("heapitem", oid, k.id), a))
                if b is not t and ("heapbase", oid) not in mus:
                    out.append((("heapbase", oid), t))
        return out

    def get_slot(self, slot):
        if slot[0] == "env":
            return self.fr.env.get(slot[1], UNDEF)
        o = self.st.heap.get(slot[1])
        if slot[0] == "heapbase":
            return o.base
        return o.items.get(tm.node(slot[2]), ABSENT)

    def set_slot(self, slot, v):
        if slot[0] == "env":
            self.fr.env[slot[1]] = v
            return
        o = self.st.heap.get(slot[1])
        if o is None:
            o = HObj("obj", tm.node(slot[1]))
        if slot[0] == "heapbase":
            self.st.heap[slot[1]] = o.with_base(v)
        else:
            self.st.heap[slot[1]] = o.with_item(tm.node(slot[2]), v)

    def set_slot_final(self, slot, v):
        if slot[0] == "env":
            self.set_local(slot[1], v)
            return
        o = self.st.heap.get(slot[1])
        if o is None:
            o = HObj("obj", tm.node(slot[1]))
        if slot[0] == "heapbase":
            self.st.heap[slot[1]] = o.with_base(self.gated(v, o.base))
        else:
            k = tm.node(slot[2])
            old = o.items.get(k)
            if old is None:
                old = self.base_get(o, k)
            self.st.heap[slot[1]] = o.with_item(k, self.gated(v, old))

    def close_terms(self, dom, idx, ts):
        lvl = 1 + max([x.data for t in ts for x in walk(t) if x.op == "bv"]
                      or [0])
        bv = mk("bv", (), lvl)
        m = {idx.id: bv}
        return lvl, [subst(t, m) for t in ts]

    def summarise(self, slot, mus, nexts, inits, dom, idx, exits, allmu,
                  tests):
        mu, _ = mus[slot]
        n, init = nexts[slot], inits[slot]
        others = set(allmu)
        if dom is not None and exits is FALSE:
            # n == mu : unchanged
            if n is mu:
                return init
            # accumulate: mu + e
            r = self.sum_acc(n, mu, init, others, dom, idx)
            if r is not None:
                return r
            r = self.list_acc(n, mu, init, others, dom, idx)
            if r is not None:
                return r
            r = self.dict_acc(n, mu, init, others, dom, idx)
            if r is not None:
                return r
        if dom is not None:
            r = self.flag_acc(n, mu, init, others, dom, idx, exits)
            if r is not None:
                return r
        return self.loop_out(slot, mus, nexts, inits, dom, idx, exits, allmu,
                             tests, None)

    def sum_acc(self, n, mu, init, others, dom, idx):
        if not any(mu in (l,) or (l.op == "rat" and mu in l.args)
                   for l in leaves(n)):
            return None

        def f(l):
            if l is mu:
                return ZERO
            if l.op != "rat":
                return mk("fail")
            return tm._add(l, tm._mul(const(-1), mu))
        d = map_leaves(f, n)
        if contains(d, others) or any(x.op == "fail" for x in leaves(d)):
            return None
        lvl, (c,) = self.close_terms(dom, idx, [d])
        return add(init, mk("sum", (dom, c), lvl))

    def list_acc(self, n, mu, init, others, dom, idx):
        # leaves: mu or concat(mu, [e...])
        guard, elem, ok = None, None, True

        def ext_of(l):
            if l is mu:
                return ()
            if l.op == "concat" and l.args[0] is mu:
                rest = l.args[1:]
                if all(r.op == "list" for r in rest):
                    return tuple(x for r in rest for x in r.args)
                return ("seq",) + rest
            return None
        for l in leaves(n):
            if ext_of(l) is None:
                return None
        exts = {l.id: ext_of(l) for l in leaves(n)}
        lens = {len(x) for x in exts.values()}
        if any(x and x[0] == "seq" for x in exts.values()):
            if len(exts) == 1:
                parts = next(iter(exts.values()))[1:]
                inner = mk_seq("concat", list(parts))
                if contains(inner, others):
                    return None
                lvl, (c,) = self.close_terms(dom, idx, [inner])
                return mk_seq("concat", [init, mk("flat", (dom, c), lvl)])
            return None
        if not (lens <= {0, 1}):
            if len(lens) == 1:
                inner = map_leaves(lambda l: mk("list", exts[l.id]), n)
                if contains(inner, others):
                    return None
                lvl, (c,) = self.close_terms(dom, idx, [inner])
                return mk_seq("concat", [init, mk("flat", (dom, c), lvl)])
            return None
        guard = map_leaves(lambda l: TRUE if exts[l.id] else FALSE, n)
        elem = map_leaves(lambda l: exts[l.id][0] if exts[l.id] else UNDEF,
                          n)
        if guard is FALSE:
            return init
        elem = constrain(elem, guard)
        if contains(guard, others) or contains(elem, others):
            return None
        return mk_seq("concat", [init, self.mk_collect(dom, idx, guard,
                                                       elem)])

    def mk_collect(self, dom, idx, guard, elem):
        lvl, (g, e) = self.close_terms(dom, idx, [guard, elem])
        return collect(dom, g, e, lvl)

    def dict_acc(self, n, mu, init, others, dom, idx):
        key, val = None, None

        def parse(l):
            if l is mu:
                return ()
            if l.op == "dstore" and l.args[0] is mu:
                return (l.args[1], l.args[2])
            if l.op == "dict" and l.args[0] is mu and len(l.args) == 3:
                return (l.args[1], l.args[2])
            return None
        ps = {l.id: parse(l) for l in leaves(n)}
        if any(p is None for p in ps.values()):
            return None
        guard = map_leaves(lambda l: TRUE if ps[l.id] else FALSE, n)
        if guard is FALSE:
            return init
        key = constrain(map_leaves(lambda l: ps[l.id][0] if ps[l.id]
                                   else UNDEF, n), guard)
        val = constrain(map_leaves(lambda l: ps[l.id][1] if ps[l.id]
                                   else UNDEF, n), guard)
        # a key that no earlier iteration stores: present if it was before
        m = {}
        for x in tm.bdd_atoms(guard).values():
            if x.op == "in" and x.args[1] is mu and (
                    x.args[0] is t_index(dom, idx)
                    or distinct_key(x.args[0], dom, idx)) and \
                    x.args[0] is key:
                m[x.id] = x
        if m:
            for x in m.values():
                c = self.contains_atom(key, init) if init is not ABSENT \
                    else FALSE
                guard, val = (ite(c, constrain(y, atom(x)),
                                  constrain(y, bnot(atom(x))))
                              for y in (guard, val))
        if contains(key, others) or contains(guard, others):
            return None
        if guard is not TRUE and not contains(guard, {idx.id, mu.id}):
            # stored into under a condition that the loop does not change
            d2 = constrain(dom, guard)
            k2 = subst(constrain(key, guard), {t_index(dom, idx).id:
                                               t_index(d2, idx)})
            v2 = subst(constrain(val, guard), {t_index(dom, idx).id:
                                               t_index(d2, idx)})
            r = self.dict_acc(mk("dstore", (mu, k2, v2)), mu,
                              init, others, d2, idx)
            return None if r is None else ite(guard, r, init)
        # (or under one that partly does)
        for x in tm.bdd_atoms(guard).values() if guard is not TRUE else ():
            if contains(x, {idx.id, mu.id}):
                continue
            r = [self.dict_acc(ite(constrain(guard, c), constrain(mk(
                "dstore", (mu, key, val)), c), mu), mu, init, others,
                constrain(dom, c), idx) for c in (atom(x), bnot(atom(x)))]
            return None if None in r else ite(atom(x), *r)
        # reads of the dict being built, at the key being written
        own = mk("index", (mu, key))
        if contains(val, {own.id}) or contains(guard, {own.id}):
            if not (key is t_index(dom, idx) or distinct_key(key, dom, idx)):
                return None
            if init is not ABSENT:
                val, guard = (subst(x, {own.id: t_index(init, key)})
                              for x in (val, guard))
        if contains(guard, {mu.id}):
            return None
        if contains(val, others):
            return None
        lvl, (g, k, v) = self.close_terms(dom, idx, [guard, key, val])
        dc = mk("dcollect", (dom, g, k, v), lvl)
        if init is ABSENT or (init.op == "dict" and len(init.args) == 1
                              and init.args[0] is ABSENT):
            x = t_index(dom, mk("bv", (), lvl))
            if k is x and v is t_index(dom, x) and dom.op not in (
                    "list", "tuple", "range", "collect"):
                # {k: v for k, v in dom.items() if k != c}
                out, cs = g, []
                for a in tm.bdd_atoms(g).values():
                    c = [y for y in a.args if y is not x]
                    if a.op == "eq" and len(c) == 1 and c[0].op == "const":
                        cs.append(c[0])
                        out = constrain(out, bnot(atom(a)))
                if out is TRUE and g is ball(bnot(eq(x, c)) for c in cs):
                    cs.sort(key=lambda c: c.id)
                    return mk("dict", (dom, *[y for c in cs
                                              for y in (c, ABSENT)])) \
                        if cs else dom
            return dc
        if init is dom and g is TRUE and k is t_index(dom, mk("bv", (), lvl)):
            return dc
        return dunion(init, dc)

    def flag_acc(self, n, mu, init, others, dom, idx, exits):
        """Variables set to a loop-invariant value on some iteration."""
        vals = [l for l in leaves(n) if l is not mu]
        if len(vals) != 1 or mu not in leaves(n) and exits is not FALSE:
            return None
        v = vals[0]
        if contains(v, others | {idx.id}):
            return None
        g = map_leaves(lambda l: FALSE if l is mu else TRUE, n)
        if contains(g, others):
            return None
        if exits is not FALSE and band(exits, bnot(g)) is not FALSE:
            return None
        lvl, (gc,) = self.close_terms(dom, idx, [g])
        return ite(lib.t_any(dom, gc, lvl), v, init)

    def loop_out(self, slot, mus, nexts, inits, dom, idx, exits, allmu,
                 tests, target, extra=()):
        """General loop result: canonical cluster of carried variables."""
        order, seen = [], set()
        todo = []

        def visit(t):
            for x in ordered_walk(t, seen):
                if x.id in allmu and allmu[x.id] not in order:
                    order.append(allmu[x.id])
        visit(exits)
        visit(tests)
        i = 0
        while i < len(order):
            visit(nexts[order[i]])
            i += 1
        if slot is not None and slot not in order:
            order.append(slot)
        for t in extra:
            visit(t)
        while i < len(order):
            visit(nexts[order[i]])
            i += 1
        key = (idx.id, tuple(order), exits.id, tests.id,
               tuple(nexts[s].id for s in order),
               tuple(t.id for t in extra))
        c = self.loop_cache.get(key)
        if c is None:
            allk = (idx.id, "lvl")
            base = self.loop_cache.get(allk)
            if base is None:
                seen2 = set()
                base = max([x.data for y in [exits, tests, *nexts.values()]
                            for x in walk(y, seen2) if x.op == "bv"] or [0])
                self.loop_cache[allk] = base
                self.loop_cache[(idx.id, "seen")] = seen2
            seen2 = set(self.loop_cache[(idx.id, "seen")])
            lvl = 1 + max([x.data for y in extra for x in walk(y, seen2)
                           if x.op == "bv"] + [base])
            cls = self.slot_classes(order, mus, nexts, inits, idx, lvl)
            m = {idx.id: mk("bv", (), lvl)}
            reps = []
            for sl, j in cls.items():
                m[mus[sl][0].id] = mk("bv", (), lvl + 1 + j)
                if j == len(reps):
                    reps.append(sl)
            memo = self.loop_cache.setdefault(
                (idx.id, "memo", lvl, tuple(order)), {})
            ts = [subst(t, m, memo) for t in
                  [exits, tests] + [nexts[s] for s in reps] + list(extra)]
            ins = [inits[s] for s in reps]
            # the scope of carried variables is the loop term itself
            c = (mk("loop", (dom if dom is not None else NONE, *ins, *ts),
                    (len(reps), lvl)), cls)
            self.loop_cache[key] = c
        c, cls = c
        return mk("loopout", (c,), cls[slot] if slot is not None else -1)

    def slot_classes(self, order, mus, nexts, inits, idx, lvl):
        """Number the carried variables independently of their names and of
        the order of the statements; variables that provably hold the same
        value share a number (partition refinement)."""
        key = (idx.id, "cls", tuple(sorted(map(str, order))), lvl)
        r = self.loop_cache.get(key)
        if r is not None:
            return r
        bv = mk("bv", (), lvl)
        col = {s: mk("slot", (inits[s],)) for s in order}
        stable = len(order) < 2
        rounds = 0
        while rounds < 6 and len(order) > 1:
            rounds += 1
            m = {idx.id: bv}
            for s in order:
                m[mus[s][0].id] = col[s]
            memo = {}
            new = {s: mk("slot", (inits[s], subst(nexts[s], m, memo)))
                   for s in order}
            same = len(set(c.id for c in col.values())) == \
                len(set(c.id for c in new.values()))
            # the partition only gets finer
            col = new
            if same:
                stable = True
                break
            if len(set(c.id for c in col.values())) == len(order):
                stable = True
                break
        out = {}
        if stable:
            byid = sorted(order, key=lambda s: (fingerprint(col[s]),
                                                col[s].id))
            n, last = -1, None
            for s in byid:
                if col[s].id != last:
                    n, last = n + 1, col[s].id
                out[s] = n
        else:
            for n, s in enumerate(sorted(order, key=lambda s: (
                    fingerprint(col[s]), order.index(s)))):
                out[s] = n
        self.loop_cache[key] = out
        return out

    def close_guard(self, g, dom, idx, allmu, mus, nexts, inits, exits,
                    tests):
        if g is TRUE and dom is not None and exits is FALSE:
            return lib.t_any(dom, TRUE, 1)
        if dom is not None and not contains(g, set(allmu)):
            if not contains(g, {idx.id}) and False:
                return g
            lvl, (gc,) = self.close_terms(dom, idx, [g])
            return lib.t_any(dom, gc, lvl)
        return atom(mk("loopany", (self.loop_out(
            None, mus, nexts, inits, dom, idx, exits, allmu, tests, None,
            (g,)),)))

    def loop_first(self, g, v, dom, idx, allmu, mus, nexts, inits, exits,
                   tests):
        if is_const(v):
            return v
        if not contains(v, set(allmu) | {idx.id}):
            return v
        if dom is not None and not contains(v, set(allmu)) and \
                not contains(g, set(allmu)):
            lvl, (gc, vc) = self.close_terms(dom, idx, [g, v])
            return mk("first", (dom, gc, vc), lvl)
        return mk("loopfirst", (self.loop_out(
            None, mus, nexts, inits, dom, idx, exits, allmu, tests, None,
            (g, v)),))

    def close_event(self, ev, dom, idx, allmu, out, mus, nexts, inits, exits,
                    tests, pc0):
        ids = set(allmu) | {idx.id}
        args = []
        for a in ev.args:
            if isinstance(a, T):
                fa = a
                if contains(fa, ids):
                    if dom is not None and not contains(fa, set(allmu)):
                        lvl, (c,) = self.close_terms(dom, idx, [fa])
                        fa = mk("each", (dom, c), lvl)
                    else:
                        fa = mk("eachloop", (self.loop_out(
                            None, mus, nexts, inits, dom, idx, exits, allmu,
                            tests, None, (fa,)),))
                args.append(fa)
            else:
                args.append(a)
        if ev.kind == "raise" and dom is not None and ev.guard is not TRUE \
                and not contains(ev.guard, {idx.id, *allmu}):
            # what is refused has nothing to do with the elements
            self.idle.append(eq(lib.n_len(dom), ZERO))
        g = self.close_guard(ev.guard, dom, idx, allmu, mus, nexts, inits,
                             exits, tests)
        ev.guard = band(pc0, g)
        ev.args = tuple(args)
        ev.loops = ev.loops + (dom,)

    # --------------------------------------------------------- comprehensions
    def e_ListComp(self, e):
        return self.new_list(self.comp(e, "list"))

    def e_SetComp(self, e):
        return mk("setof", (self.freeze_term(self.comp(e, "list")),))

    def e_GeneratorExp(self, e):
        return self.new_list(self.comp(e, "list"))

    def e_DictComp(self, e):
        d = self.new_dict()
        saved = self.comp_scope(e)
        try:
            self.comp_gen(e.generators, 0, lambda: self.store_key(
                d, self.rv(self.eval(e.key)), self.eval(e.value), e,
                fresh=True), e)
        finally:
            self.comp_restore(saved)
        return d

    def comp_scope(self, e):
        names = [n.id for g in e.generators for n in ast.walk(g.target)
                 if isinstance(n, ast.Name)]
        saved = (names, {n: self.fr.env.get(n) for n in names})
        # comprehension variables are local to the comprehension
        for n in names:
            self.fr.env.pop(n, None)
        return saved

    def comp_restore(self, saved):
        names, old = saved
        for n in names:
            if old[n] is None:
                self.fr.env.pop(n, None)
            else:
                self.fr.env[n] = old[n]

    def comp(self, e, kind):
        saved = self.comp_scope(e)
        lst = self.new_list(mk("list"))
        try:
            self.comp_gen(e.generators, 0, lambda: lib.m_list_append(
                self, lst, self.hobj(lst), [self.eval(e.elt)], {}, e), e)
        finally:
            self.comp_restore(saved)
        return self.hobj(lst).base

    def comp_gen(self, gens, i, inner, e):
        if i == len(gens):
            inner()
            return
        g = gens[i]
        it = self.eval(g.iter)

        def body():
            c = TRUE
            for t in g.ifs:
                c = band(c, self.as_bool(self.eval(t)))
            self.branch(c, lambda: self.comp_gen(gens, i + 1, inner, e),
                        lambda: None)
        self.run_for(it, lambda v: self.assign(g.target, v, e), body, e)


# -------------------------------------------------------------------- helpers
def constrain_or(c, care):
    r = constrain(c, care)
    return TRUE if r is UNDEF else r


def attr_key(name):
    return mk("const", (), ("attrname", name))


def attr_name(k):
    return k.data[1]


def const_key(k):
    if k.op == "const":
        return True
    return k.op == "tuple" and all(const_key(a) or (
        a.op == "rat" and False) for a in k.args)


def strish(t):
    return is_str(t) or t.op == "fstr"


def fstr(parts):
    """String concatenation in normal form."""
    out = []
    for i, p in enumerate(parts):
        if p.op == "ite" and not is_bool(p) and len(leaves(p)) <= 8:
            return map_leaves(lambda x: fstr(parts[:i] + [x]
                                             + parts[i + 1:]), p)
        if p.op == "fstr":
            ps = list(p.args)
        elif p.op == "const" and p.data[0] == "num" and \
                p.data[1].denominator == 1:
            ps = [const(str(p.data[1].numerator))]
        elif p.op == "const" and p.data[0] in ("bool", "NoneType"):
            ps = [const(str(p.data[1]))]
        else:
            ps = [p]
        for q in ps:
            if is_str(q) and out and is_str(out[-1]):
                out[-1] = const(out[-1].data[1] + q.data[1])
            else:
                out.append(q)
    out = [q for q in out if not (is_str(q) and q.data[1] == "")]
    if not out:
        return const("")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk("fstr", tuple(out))


def mk_slice(lo, hi, st):
    if lo is ZERO and (st is NONE or st is ONE):
        lo = NONE
    if st is ONE:
        st = NONE
    return app("slice", None, [lo, hi, st])


def app(op, data, args, limit=24):
    """Application distributed over gated arguments."""
    n = 1
    for a in args:
        if a.op == "ite" and not is_bool(a):
            n *= len(leaves(a))
    if n > limit:
        return mk(op, tuple(args), data)

    def rec(i, acc):
        if i == len(args):
            if op == "meth" and data[0] == "astype":
                return lib.n_astype(acc, data)
            return mk(op, tuple(acc), data)
        a = args[i]
        if a.op == "ite" and not is_bool(a):
            return map_leaves(lambda x: rec(i + 1, acc + [x]), a)
        return rec(i + 1, acc + [a])
    return rec(0, [])


def mk_seq(op, parts):
    if op in ("list", "tuple"):
        return mk(op, tuple(parts))
    # concat: flatten, merge adjacent displays
    for i, p in enumerate(parts):
        if p.op == "ite" and not is_bool(p) and len(leaves(p)) <= 16:
            return map_leaves(lambda x: mk_seq(
                op, parts[:i] + [x] + parts[i + 1:]), p)
    out = []
    for p in parts:
        ps = p.args if p.op == "concat" else (p,)
        for q in ps:
            if q.op in ("list", "tuple") and out and \
                    out[-1].op in ("list", "tuple"):
                out[-1] = mk(out[-1].op, out[-1].args + q.args)
            else:
                out.append(q)
    out2 = [q for q in out if not (q.op in ("list", "tuple")
                                   and not q.args)]
    if not out2:
        return out[0] if out else mk("list")
    if len(out2) == 1:
        return out2[0]
    return mk("concat", tuple(out2))


def seq_index(o, k):
    n = len(o.args)
    if is_num(k):
        i = num(k)
        if i.denominator != 1 or not -n <= i < n:
            return mk("indexerror", (o, k))
        return o.args[int(i)]
    if k.op == "slice" and all(x is NONE or is_num(x) for x in k.args):
        s = slice(*[None if x is NONE else int(num(x)) for x in k.args])
        return mk(o.op, o.args[s])
    return mk("index", (o, k))


def stable(v):
    """An argument, or an attribute of one."""
    while v.op == "attr":
        v = v.args[0]
    return v.op == "sym" and isinstance(v.data, str) and \
        v.data.isidentifier()


def element_by_key(o, k):
    """o[argmin([f(x) for x in o])]  ->  min(o, key=f)"""
    if k.data[1] or len(k.args) != 1 or k.args[0].op != "collect":
        return None
    dom, guard, elem = k.args[0].args
    if dom is not o or guard is not TRUE:
        return None
    bv = mk("bv", (), k.args[0].data)
    x = sym("λelement")
    f = subst(elem, {mk("index", (o, bv)).id: x})
    if contains(f, {bv.id}) or not contains(f, {x.id}):
        return None
    lvl = 1 + max([y.data for y in walk(f) if y.op == "bv"] or [0])
    fn = mk("lambda", (subst(f, {x.id: mk("bv", (), lvl)}),), (1, lvl))
    return app("call", (k.data[0][9:], ("key",)), [o, fn])


def positions(t):
    """An array of positions, by the name it has in this package."""
    if t.op == "index" and t.args[1].op == "slice":
        return positions(t.args[0])
    return t.op in ("attr", "sym") and isinstance(t.data, str) and (
        t.data.endswith("_location") or
        t.data in ("pericenters", "apocenters"))


def t_index(o, k):
    """index(o, k) in normal form, o and k free of objects."""
    if k.op == "ite" and not is_bool(k):
        return map_leaves(lambda x: t_index(o, x), k)
    if o.op == "ite" and not is_bool(o):
        return map_leaves(lambda x: t_index(x, k), o)
    if o.op in ("tuple", "list") and (is_num(k) or k.op == "slice"):
        return seq_index(o, k)
    if k.op == "slice" and all(a is NONE for a in k.args):
        return o
    if is_str(o) and (is_num(k) and is_int(k) or k.op == "slice" and all(
            x is NONE or is_num(x) and is_int(x) for x in k.args)):
        try:
            return const(o.data[1][int(num(k)) if is_num(k) else slice(
                *[None if x is NONE else int(num(x)) for x in k.args])])
        except (IndexError, ValueError):
            return mk("indexerror", (o, k))
    if k.op == "call" and k.data[0] in ("numpy.argmin", "numpy.argmax"):
        r = element_by_key(o, k)
        if r is not None:
            return r
    if k.op == "tuple" and len(k.args) == 2:
        i, j = k.args
        full = [x.op == "slice" and all(a is NONE for a in x.args)
                for x in (i, j)]
        if full[0] and is_str(j) and o.op == "attr" and o.data == "loc":
            return t_index(o.args[0], j)        # a column of a table
        if any(full) and not all(full):
            if o.op == "call" and o.data == ("numpy.transpose", ()) and \
                    len(o.args) == 1 and not any(
                        x is NONE for x in (i, j)):
                return t_index(o.args[0], mk("tuple", (j, i)))
            if full[1] and is_int(i):
                # rows
                return t_index(o, i)
    if k.op == "slice":
        lo, hi, st = k.args
        if is_num(hi) is False and hi is not NONE:
            # x[:len(x) - c]  ->  x[:-c]
            d = tm._add(hi, tm._mul(const(-1), app("call", ("len", ()),
                                                   [o])))
            if is_num(d) and num(d) < 0:
                return t_index(o, mk_slice(lo, d, st))
            if is_num(d) and num(d) == 0:
                return t_index(o, mk_slice(lo, NONE, st))
        if o.op == "index" and o.args[1].op == "slice" and st is NONE:
            r = compose_slices(o.args[1], k)
            if r is not None:
                return t_index(o.args[0], r)
    if o.op == "index" and o.args[1].op == "slice" and is_num(k) and \
            is_int(k) and num(k) >= 0:
        # x[a:b][k]  ->  x[a + k]
        lo, hi, st = o.args[1].args
        if st is NONE and (lo is NONE or is_num(lo) and num(lo) >= 0) and (
                hi is NONE or is_num(hi) and is_int(hi)):
            j = num(k) + (0 if lo is NONE else num(lo))
            if hi is NONE or 0 <= j < num(hi):
                return t_index(o.args[0], const(j))
    if o.op == "repeat" and o.args[0].op == "list" and \
            len(o.args[0].args) == 1 and (is_int(k)):
        return o.args[0].args[0]
    if o.op == "index" and (is_num(k) or k.op == "slice") and \
            positions(o.args[1]):
        return t_index(o.args[0], t_index(o.args[1], k))
    if o.op == "index" and is_num(k):
        # the k-th of several elements
        i = o.args[1]
        if i.op == "list" and i.args and all(is_num(x) for x in i.args):
            j = seq_index(i, k)
            if is_num(j):
                return t_index(o.args[0], j)
        if i.op == "index" and i.args[1].op == "list" and \
                all(is_num(x) for x in i.args[1].args):
            return t_index(o.args[0], t_index(i, k))
    if o.op == "wheretuple" and k is ZERO:
        return o.args[0]
    if o.op == "call" and o.data[0] == "numpy.shapeof" and k is ZERO:
        return app("call", ("len", ()), [o.args[0]])
    if o.op == "collect" and o.args[1] is TRUE and k.op != "slice" and \
            (k.op in ("idx", "bv") or is_num(k)):
        return subst(o.args[2], {mk("bv", (), o.data).id: k})
    if o.op == "dcollect":
        dom, g, kk, v = o.args
        bv = mk("bv", (), o.data)
        if kk.op == "index" and kk.args[0] is dom and kk.args[1] is bv:
            r = subst(v, {kk.id: k})
            gr = subst(g, {kk.id: k})
            if not contains(r, {bv.id}) and not contains(gr, {bv.id}):
                if gr is TRUE:
                    return r
                return ite(gr, r, mk("keyerror", (k,)))
            if k.op == "index" and k.args[0] is dom and k.args[1].op in (
                    "idx", "bv"):
                r = subst(v, {bv.id: k.args[1]})
                if g is TRUE:
                    return r
    if o.op == "dstore":
        e = eq(o.args[1], k) if k.op != "slice" and \
            o.args[1].op != "slice" else None
        if e is TRUE:
            return o.args[2]
        if e is FALSE and not (num_key(k) or num_key(o.args[1])):
            return t_index(o.args[0], k)
    if o.op == "dict":
        hit = FALSE
        r = None
        simple = k.op == "const" or const_key(k)
        if simple:
            for i in range(1, len(o.args), 2):
                if o.args[i] is k:
                    return map_leaves(
                        lambda x: mk("keyerror", (k,)) if x is ABSENT else x,
                        o.args[i + 1])
            if all(const_key(x) for x in o.args[1::2]):
                if o.args[0] is ABSENT:
                    return mk("keyerror", (k,))
                return t_index(o.args[0], k)
        elif all(const_key(x) for x in o.args[1::2]) and \
                len(o.args) < 40 and o.args[0] is ABSENT:
            r = mk("keyerror", (k,))
            for i in range(1, len(o.args), 2):
                r = ite(eq(k, o.args[i]), o.args[i + 1], r)
            return r
    if o.op == "dunion":
        # right operand wins where it has the key
        if o.args[1].op == "dict" and o.args[1].args[0] is ABSENT and \
                const_key(k):
            if all(x is not k for x in o.args[1].args[1::2]):
                return t_index(o.args[0], k)
    return mk("index", (o, k))


def num_key(k):
    return k.op in ("rat", "slice") or is_num(k)


def compose_slices(a, b):
    """x[a][b] for non-negative constant/simple slices, else None."""
    alo, ahi, ast_ = a.args
    blo, bhi, bst = b.args
    if ast_ is not NONE or bst is not NONE:
        return None

    def nn(x):
        return x is NONE or (is_num(x) and num(x) >= 0)
    if not (nn(alo) and nn(blo)):
        return None
    lo = add(ZERO if alo is NONE else alo, ZERO if blo is NONE else blo)
    if ahi is NONE and bhi is NONE:
        return mk_slice(lo, NONE, NONE)
    if ahi is NONE and is_num(bhi):
        if num(bhi) >= 0:
            return mk_slice(lo, add(ZERO if alo is NONE else alo, bhi), NONE)
        return mk_slice(lo, bhi, NONE)
    if bhi is NONE and is_num(ahi) and num(ahi) < 0:
        return mk_slice(lo, ahi, NONE)
    if is_num(ahi) and num(ahi) < 0 and is_num(bhi) and num(bhi) < 0:
        return mk_slice(lo, add(ahi, bhi), NONE)
    return None


def stored_params(fi):
    """Parameters of the function that it stores into (directly or by
    passing them on)."""
    c = fi.__dict__.get("_stored")
    if c is not None and c[0] is fi.node:
        return c[1]
    out = set()
    if not isinstance(fi.node, ast.Lambda):
        a = fi.node.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for n in ast.walk(fi.node):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and not \
                    isinstance(n.ctx, ast.Load):
                r = n
                while isinstance(r.value, (ast.Subscript, ast.Attribute)):
                    r = r.value
                # (attributes are kept with the value they belong to)
                if isinstance(r, ast.Subscript) and \
                        isinstance(r.value, ast.Name) and r.value.id in ps:
                    out.add(r.value.id)
            elif isinstance(n, ast.Call):
                f = n.func
                r = fi.module.resolve_expr(f) if isinstance(
                    f, (ast.Name, ast.Attribute)) else None
                if isinstance(r, FuncInfo) and r is not fi and not \
                        r.__dict__.get("_busy"):
                    r.__dict__["_busy"] = True
                    try:
                        s2 = stored_params(r)
                    finally:
                        r.__dict__.pop("_busy")
                    an = [x.arg for x in r.node.args.args]
                    for p, x in list(zip(an, n.args)) + [
                            (k.arg, k.value) for k in n.keywords]:
                        if p in s2 and isinstance(x, ast.Name) and \
                                x.id in ps:
                            out.add(x.id)
    fi.__dict__["_stored"] = (fi.node, out)
    return out


def jumps_of(s, kind):
    """break / continue statements that belong to the loop s."""
    out = []

    def rec(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, kind):
                out.append(c)
            elif not isinstance(c, (ast.For, ast.While, ast.FunctionDef,
                                    ast.Lambda, ast.ClassDef)):
                rec(c)
            elif isinstance(c, (ast.For, ast.While)):
                for x in c.orelse:
                    rec(ast.Module([x], []))
    for x in s.body:
        rec(ast.Module([x], []))
    return out


def joined(events):
    """Calls of one function that exclude each other (the branches of an
    if) are one call with the arguments of the branch taken.  A call joins
    the earliest place from which on it excludes every call of the name."""
    out, places = [], {}
    for e in events:
        if e.kind not in ("call", "extcall", "methcall") or \
                e.name in ("warnings.warn", "print"):
            out.append(e)
            continue
        ps = places.setdefault((e.kind, e.name), [])
        i = len(ps)
        while i and band(ps[i - 1].guard, e.guard) is FALSE:
            i -= 1
        while i < len(ps) and (len(ps[i].args) != len(e.args)
                               or ps[i].kws != e.kws
                               or ps[i].loops != e.loops):
            i += 1
        if i == len(ps):
            ps.append(e)
            out.append(e)
            continue
        f = ps[i]
        g = bor(f.guard, e.guard)
        f.args = tuple(x if x is y else constrain(ite(f.guard, x, y), g)
                       for x, y in zip(f.args, e.args))
        f.guard = g
    return out


def namespace_of(e):
    """x of x.__dict__ and vars(x), or None."""
    if isinstance(e, ast.Attribute) and e.attr == "__dict__":
        return e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == "vars" and len(e.args) == 1 and not e.keywords:
        return e.args[0]
    return None


def mapped(e):
    """map(f, x) / filter(f, x) as the comprehension they stand for."""
    c = e.__dict__.get("_mapped", 0)
    if c != 0:
        return c
    c = None
    if isinstance(e.func, ast.Name) and e.func.id in ("map", "filter") and \
            not e.keywords and not any(isinstance(a, ast.Starred)
                                       for a in e.args):
        f, xs = e.args[0], e.args[1:]
        names = [f"_mapped{i}" for i in range(len(xs))]
        vs = [ast.Name(n, ast.Load()) for n in names]
        to = [ast.Name(n, ast.Store()) for n in names]
        if len(xs) == 1:
            target, it = to[0], xs[0]
        elif xs:
            target = ast.Tuple(to, ast.Store())
            it = ast.Call(ast.Name("zip", ast.Load()), list(xs), [])
        if xs and e.func.id == "map":
            c = ast.ListComp(ast.Call(f, vs, []), [
                ast.comprehension(target, it, [], 0)])
        elif len(xs) == 1:
            t = vs[0] if isinstance(f, ast.Constant) and f.value is None \
                else ast.Call(f, vs, [])
            c = ast.ListComp(ast.Name(names[0], ast.Load()), [
                ast.comprehension(target, it, [t], 0)])
        if c is not None:
            ast.copy_location(c, e)
            ast.fix_missing_locations(c)
    e.__dict__["_mapped"] = c
    return c


def plain_test(e):
    return all(isinstance(n, (ast.Name, ast.UnaryOp, ast.Not, ast.Constant,
                              ast.BoolOp, ast.And, ast.Or, ast.Load,
                              ast.Compare, ast.cmpop, ast.Attribute))
               for n in ast.walk(e))


def endless_count(s):
    """for k in itertools.count(a, d): ...  ->  k = a - d; while True: ..."""
    c = s.__dict__.get("_endless", 0)
    if c != 0:
        return c
    c = None
    i = s.iter
    if isinstance(i, ast.Call) and not i.keywords and len(i.args) <= 2 and \
            isinstance(s.target, ast.Name) and (
                isinstance(i.func, ast.Name) and i.func.id == "count"
                or isinstance(i.func, ast.Attribute)
                and i.func.attr == "count"):
        a = i.args[0] if i.args else ast.Constant(0)
        d = i.args[1] if len(i.args) > 1 else ast.Constant(1)
        k = s.target.id
        if all(isinstance(x, ast.Constant) for x in (a, d)) and not any(
                isinstance(n, ast.Name) and n.id == k and not isinstance(
                    n.ctx, ast.Load) for b in s.body for n in ast.walk(b)):
            up = ast.Assign([ast.Name(k, ast.Store())], ast.BinOp(
                ast.Name(k, ast.Load()), ast.Add(), d))
            c = [ast.Assign([ast.Name(k, ast.Store())],
                            ast.Constant(a.value - d.value)),
                 ast.While(ast.Constant(True), [up] + s.body, [])]
            for x in c:
                ast.copy_location(x, s)
                ast.fix_missing_locations(x)
    s.__dict__["_endless"] = c
    return c


def tested_loop(s):
    """while True: if c: return x; rest  ->  while not c: rest; return x"""
    c = s.__dict__.get("_tested", 0)
    if c != 0:
        return c
    c = None
    t, b = s.test, s.body
    if isinstance(t, ast.Constant) and t.value in (True, 1) and \
            not s.orelse:
        n = next((i for i, x in enumerate(b) if not isinstance(x, (
            ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr))), None)
        x = b[n] if n is not None else None
        if n and n <= 8 and isinstance(x, ast.If) and not x.orelse and \
                len(x.body) == 1 and isinstance(x.body[0], ast.Break) and \
                not has_break(b[n + 1:]) and not any(
                    isinstance(y, (ast.Continue, ast.NamedExpr, ast.Yield,
                                   ast.Await))
                    for z in b for y in ast.walk(z)):
            # while True: A; if c: break; B  ->  A; while not c: B; A
            neg = ast.UnaryOp(ast.Not(), copy.deepcopy(x.test))
            c = b[:n] + [ast.copy_location(ast.While(
                neg, b[n + 1:] + copy.deepcopy(b[:n]), []), s)]
            ast.fix_missing_locations(c[-1])
            s.__dict__["_tested"] = c
            return c
    if isinstance(t, ast.Constant) and t.value in (True, 1) and \
            not s.orelse and len(b) > 1 and isinstance(b[0], ast.If) and \
            not b[0].orelse and isinstance(b[0].body[-1],
                                           (ast.Return, ast.Break)):
        then, brk = b[0].body, isinstance(b[0].body[-1], ast.Break)
        if not (has_break(b[1:]) or has_break(then[:-1])):
            neg = ast.UnaryOp(ast.Not(), copy.deepcopy(b[0].test))
            c = [ast.copy_location(ast.While(neg, b[1:], []), s)] + (
                then[:-1] if brk else then)
            ast.fix_missing_locations(c[0])
    s.__dict__["_tested"] = c
    return c


def has_break(body):
    """Does the body leave the loop it belongs to?"""
    for x in body:
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.For, ast.While)):
            if has_break(x.orelse):
                return True
            continue
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if has_break(getattr(x, f, [])):
                return True
        if any(has_break(h.body) for h in getattr(x, "handlers", [])):
            return True
    return False


def without_else(s):
    """The loop with its else clause spelled out with a flag."""
    c = s.__dict__.get("_noelse")
    if c is not None:
        return c
    flag = f"_completed_{s.lineno}_{s.col_offset}"

    class B(ast.NodeTransformer):
        def visit_For(self, n):
            return n
        visit_While = visit_FunctionDef = visit_Lambda = visit_For

        def visit_Break(self, n):
            return [ast.copy_location(ast.Assign(
                [ast.Name(flag, ast.Store())], ast.Constant(False)), n), n]
    l = copy.deepcopy(s)
    l.orelse = []
    l.body = [y for x in l.body for y in _aslist(B().visit(x))]
    out = [ast.copy_location(ast.Assign([ast.Name(flag, ast.Store())],
                                        ast.Constant(True)), s), l,
           ast.copy_location(ast.If(ast.Name(flag, ast.Load()), s.orelse,
                                    []), s)]
    for x in out:
        ast.fix_missing_locations(x)
    s.__dict__["_noelse"] = out
    return out


def _aslist(x):
    return x if isinstance(x, list) else [x]


def counting_loop(s, fn):
    """'while i < n: ...; i += 1' as the for loop it is, or None."""
    if "_counting" in s.__dict__:
        return s.__dict__["_counting"]
    s.__dict__["_counting"] = r = _counting_loop(s, fn)
    return r


def _counting_loop(s, fn):
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1) or \
            len(s.body) < 2:
        return None
    op, a, b = t.ops[0], t.left, t.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b = b, a
        op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not isinstance(op, (ast.Lt, ast.LtE)) or not isinstance(a, ast.Name):
        return None
    i, last = a.id, s.body[-1]

    def one(x):
        return isinstance(x, ast.Constant) and x.value == 1 and not \
            isinstance(x.value, bool)

    def me(x):
        return isinstance(x, ast.Name) and x.id == i
    step = isinstance(last, ast.AugAssign) and me(last.target) and \
        isinstance(last.op, ast.Add) and one(last.value)
    step = step or (isinstance(last, ast.Assign) and len(last.targets) == 1
                    and me(last.targets[0]) and isinstance(
                        last.value, ast.BinOp) and isinstance(
                            last.value.op, ast.Add) and (
                                me(last.value.left) and one(last.value.right)
                                or me(last.value.right) and
                                one(last.value.left)))
    if not step or jumps_of(s, ast.Continue):
        return None
    body = ast.Module(s.body[:-1], [])
    stored = {n.id for n in ast.walk(body) if isinstance(n, ast.Name)
              and not isinstance(n.ctx, ast.Load)}
    if i in stored:
        return None
    grown = set()
    for n in ast.walk(body):
        if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "pop", "insert", "remove", "clear"):
            grown.add(ast.unparse(n.func.value))
        elif isinstance(n, (ast.AugAssign, ast.Delete)):
            grown.add(ast.unparse(n.target if isinstance(n, ast.AugAssign)
                                  else n.targets[0]))

    def fixed(x):
        if isinstance(x, ast.Constant):
            return True
        if isinstance(x, ast.Name):
            return x.id not in stored and x.id not in grown and x.id != i
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == "len" and len(x.args) == 1:
            return isinstance(x.args[0], (ast.Name, ast.Attribute)) and \
                fixed(x.args[0])
        if isinstance(x, ast.Attribute):
            return isinstance(x.value, ast.Name) and \
                ast.unparse(x) not in grown and fixed(x.value) and not any(
                    isinstance(n, ast.Attribute) and n.attr == x.attr and
                    not isinstance(n.ctx, ast.Load) for n in ast.walk(body))
        if isinstance(x, ast.BinOp):
            return fixed(x.left) and fixed(x.right)
        return False
    if not fixed(b):
        return None
    inside = {id(n) for n in ast.walk(s)}
    used = any(isinstance(n, ast.Name) and n.id == i and isinstance(
        n.ctx, ast.Load) and id(n) not in inside for n in ast.walk(fn))
    leaves_early = jumps_of(s, ast.Break)
    if used and leaves_early:
        return None
    stop = b if isinstance(op, ast.Lt) else ast.BinOp(b, ast.Add(),
                                                      ast.Constant(1))
    it = f"_i_{s.lineno}_{s.col_offset}"
    out = [ast.For(ast.Name(it, ast.Store()), ast.Call(
        ast.Name("range", ast.Load()), [ast.Name(i, ast.Load()), stop], []),
        [ast.Assign([ast.Name(i, ast.Store())],
                    ast.Name(it, ast.Load()))] + s.body[:-1], [])]
    if used:
        start = f"_from_{s.lineno}_{s.col_offset}"
        out = [ast.Assign([ast.Name(start, ast.Store())],
                          ast.Name(i, ast.Load()))] + out + [
            ast.Assign([ast.Name(i, ast.Store())], ast.IfExp(
                ast.Compare(ast.Name(start, ast.Load()), [ast.Lt()],
                            [copy.deepcopy(stop)]), copy.deepcopy(stop),
                ast.Name(start, ast.Load())))]
    for x in out:
        ast.copy_location(x, s)
        ast.fix_missing_locations(x)
    return out


def store_term(base, k, v):
    if base.op == "call" and base.data == ("numpy.zeros_like", ()) and \
            len(base.args) == 1:
        # what 0*x is normalised to
        base = ZERO
    if base.op == "dstore" and base.args[1] is k:
        base = base.args[0]
    elif base.op == "ite" and not is_bool(base) and all(
            x.op == "dstore" and x.args[1] is k for x in leaves(base)):
        base = map_leaves(lambda x: x.args[0], base)
    if base.op == "dstore" and apart(base.args[1], k) and \
            key_order(k) < key_order(base.args[1]):
        # stores to different places commute
        return store_term(store_term(base.args[0], k, v), base.args[1],
                          base.args[2])
    return mk("dstore", (base, k, v))


# stores at fixed distances from the two ends of an array are taken to touch
# different elements when there are up to this many of them
ENDS = 5


def fixed_place(k):
    """Key known at analysis time, as a constant or a pair of bounds."""
    if is_const(k):
        kind, v = k.data
        if kind == "str" or kind == "num" and v.denominator == 1:
            return v if kind == "str" else int(v)
    if k.op == "slice" and all(is_const(a) for a in k.args):
        a, b, c = (x.data[1] for x in k.args)
        if c in (None, 1):
            return (int(a or 0), b if b is None else int(b))
    return None


def apart(a, b):
    """Do the keys denote different places?"""
    if a.op == "ite" and b.op == "ite" and is_bool(a) and is_bool(b):
        return band(a, b) is FALSE      # masks that exclude each other
    a, b = fixed_place(a), fixed_place(b)
    if a is None or b is None:
        return False
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a != b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return False
    if isinstance(a, tuple):
        a, b = b, a
    if isinstance(b, tuple):
        lo, hi = b
        if lo < 0 or hi is not None and hi >= 0:
            return False
        return 0 <= a < lo or hi is not None and hi <= a < 0
    if (a < 0) == (b < 0):
        return a != b
    return abs(a) + abs(b) <= ENDS


def key_order(k):
    if k.op == "ite" and is_bool(k):
        return (2, "", k.id)
    p = fixed_place(k)
    return (0, "", p) if isinstance(p, int) else (1, str(p), 0)


def dunion(a, b):
    if a.op == "ite" and not is_bool(a):
        return map_leaves(lambda x: dunion(x, b), a)
    if b.op == "ite" and not is_bool(b):
        return map_leaves(lambda x: dunion(a, x), b)
    if a is ABSENT or a is b:
        return b
    if b is ABSENT:
        return a
    if b.op == "dstore":
        return store_term(dunion(a, b.args[0]), b.args[1], b.args[2])
    if b.op == "dict" and b.args[0] is ABSENT and len(b.args) < 42 and \
            not any(x is ABSENT for v in b.args[2::2] for x in leaves(v)):
        for i in range(1, len(b.args), 2):
            a = store_term(a, b.args[i], b.args[i + 1])
        return a
    return mk("dunion", (a, b))


def collect(dom, g, e, lvl):
    """[e for bv in dom if g] in normal form."""
    bv = mk("bv", (), lvl)
    if g is FALSE:
        return mk("list")
    if g is TRUE and e is t_index(dom, bv):
        return dom
    return mk("collect", (dom, g, e), lvl)


def distinct_key(key, dom, idx):
    """Is key an injective function of the loop element?"""
    return key is t_index(dom, idx) or key is idx


def ordered_walk(t, seen=None):
    seen = set() if seen is None else seen
    if t.id in seen:
        return
    seen.add(t.id)
    yield t
    for a in t.args:
        yield from ordered_walk(a, seen)


from .terms import _dist2  # noqa: E402
tm.register_rebuild("index", lambda t, a: t_index(a[0], a[1]))
tm.register_rebuild("slice", lambda t, a: mk_slice(*a))
tm.register_rebuild("fstr", lambda t, a: fstr(list(a)))
tm.register_rebuild("concat", lambda t, a: mk_seq("concat", list(a)))
tm.register_rebuild("collect", lambda t, a: collect(a[0], a[1], a[2],
                                                    t.data))
tm.register_rebuild("apply", lambda t, a: app("apply", t.data, list(a)))
tm.register_rebuild("meth", lambda t, a: app("meth", t.data, list(a)))
tm.register_rebuild("call", lambda t, a: lib.rebuild_call(t, list(a)))
tm.register_rebuild("attr", lambda t, a: app("attr", t.data, list(a)))
tm.register_rebuild("atom:in", lambda t, a: atom(mk("in", a))
                    if a[1].op not in ("list", "tuple") else
                    bany(eq(a[0], x) for x in a[1].args))
tm.register_rebuild("atom:truth", lambda t, a: map_leaves(
    lambda x: (TRUE if x.data[1] else FALSE) if x.op == "const" else
    atom(mk("truth", (x,))), a[0]))
