"""Which objects may a function change in place?

A flow-sensitive points-to analysis over the syntax tree.  An abstract object
is a parameter, something reachable inside a parameter, or an allocation.
Functions of the package are summarised once (what they change, what they
store where, what they return) and the summary is instantiated at every call.
Nothing is executed and no path is enumerated: branches are joined, loops are
iterated until nothing changes.
"""
import ast
from .model import FuncInfo, ClassInfo, ModuleInfo
from . import effects

DEPTH = 4
MUTATORS = {"update", "append", "extend", "pop", "clear", "setdefault",
            "insert", "remove", "sort", "popitem", "fill", "resize", "put",
            "itemset", "setflags", "reverse", "partition", "byteswap",
            "drop_duplicates_", "add", "discard"}
# the result is (a view of) the object itself
SAME_METH = {"reshape", "ravel", "view", "squeeze", "swapaxes", "transpose",
             "__iter__", "to_numpy"}
SAME_ATTR = {"T", "real", "imag", "values", "flat", "loc", "iloc", "at",
             "iat", "array"}
SAME_FUNC = {"numpy.asarray", "numpy.atleast_1d", "numpy.ravel", "iter",
             "numpy.asanyarray", "numpy.squeeze", "numpy.reshape",
             "numpy.ascontiguousarray", "numpy.transpose", "numpy.real",
             "numpy.imag", "numpy.atleast_2d", "numpy.asfarray",
             "numpy.broadcast_to", "numpy.swapaxes", "numpy.flip",
             "numpy.require", "numpy.split", "numpy.array_split"}
SHALLOW = {"list", "tuple", "dict", "set", "sorted", "reversed", "frozenset",
           "copy.copy", "collections.OrderedDict", "collections.deque",
           "collections.defaultdict", "filter", "enumerate_", "max", "min",
           "next"}
CHANGES_ARG0 = {"numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask",
                "numpy.fill_diagonal", "numpy.random.shuffle",
                "random.shuffle", "numpy.add.at", "numpy.subtract.at",
                "numpy.multiply.at", "setattr", "delattr",
                "numpy.put_along_axis", "heapq.heappush", "heapq.heapify",
                "bisect.insort", "operator.setitem", "operator.delitem",
                "operator.iadd", "operator.isub", "operator.imul",
                "operator.itruediv", "numpy.divmod.at"}
INDEX_FUNCS = {"numpy.where", "numpy.argsort", "numpy.nonzero", "numpy.isin",
               "numpy.flatnonzero", "numpy.logical_and", "numpy.logical_or",
               "numpy.logical_not", "numpy.array", "numpy.append",
               "numpy.concatenate", "numpy.arange", "numpy.isnan",
               "numpy.isfinite", "numpy.argwhere", "numpy.unique",
               "numpy.sort", "numpy.invert"}
NUM_FUNCS = {"len", "int", "float", "bool", "str", "numpy.argmax",
             "numpy.argmin", "round", "numpy.searchsorted", "abs", "range",
             "isinstance", "hasattr", "callable", "numpy.ndim", "repr",
             "format", "type", "id", "numpy.shape", "numpy.size"}


class Val:
    __slots__ = ("objs", "kind", "elts")

    def __init__(self, objs=frozenset(), kind="", elts=None):
        self.objs, self.kind, self.elts = frozenset(objs), kind, elts

    def key(self):
        return (self.objs, self.kind, tuple(e.key() for e in self.elts)
                if self.elts is not None else None)


NUM = Val((), "num")
EMPTY = Val()


def vjoin(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    elts = None
    if a.elts is not None and b.elts is not None and \
            len(a.elts) == len(b.elts):
        elts = [vjoin(x, y) for x, y in zip(a.elts, b.elts)]
    elif a.elts is not None or b.elts is not None:
        o = set(a.objs) | set(b.objs)
        for v in (a, b):
            for x in v.elts or ():
                o |= x.objs
        return Val(o, "")
    kind = a.kind if a.kind == b.kind else ""
    if isinstance(a.kind, tuple) and isinstance(b.kind, tuple) and kind == "":
        both = sorted(set(a.kind) | set(b.kind))
        kind = tuple(both) if len(both) <= 24 else "key"
    return Val(a.objs | b.objs, kind, elts)


def inside(o, k):
    """Object stored in o under k, when nothing is known about it."""
    d, x = 0, o
    while x[0] == "in":
        d, x = d + 1, x[1]
    if d >= DEPTH:
        return o
    return ("in", o, k)


def root(o):
    while o[0] == "in":
        o = o[1]
    return o


class State:
    __slots__ = ("env", "heap")

    def __init__(self, env=None, heap=None):
        self.env, self.heap = env or {}, heap or {}

    def copy(self):
        return State(dict(self.env), dict(self.heap))


class Site:
    __slots__ = ("relpath", "line", "func", "what")

    def __init__(self, relpath, line, func, what):
        self.relpath, self.line, self.func, self.what = (relpath, line, func,
                                                         what)

    def key(self):
        return (self.relpath, self.line, self.func, self.what)


class Summary:
    def __init__(self):
        self.muts = {}      # object -> {site key: Site}
        self.stores = {}    # (object, key) -> set of objects
        self.ret = EMPTY
        self.heap = {}      # fields of the allocated objects
        self.copies = {}    # allocated object -> objects it copies
        self.classes = {}   # allocated object -> class
        self.done = False
        self.nmut = 0


class Analysis:
    def __init__(self, repo):
        self.repo = repo
        self.sums = {}
        self.calls = 0

    def summary(self, fi):
        s = self.sums.get(id(fi.node))
        if s is None:
            s = self.sums[id(fi.node)] = Summary()
            Function(self, fi, s).run()
            s.done = True
        return s


class Function:
    def __init__(self, an, fi, summ):
        self.an, self.repo, self.fi, self.sum = an, an.repo, fi, summ
        self.copies = summ.copies
        self.classes = summ.classes
        a = fi.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.me = None
        if fi.cls is not None and "staticmethod" not in fi.decorators and \
                self.params:
            self.me = self.params[0]
        self.stack = []     # nested function bodies being inlined
        self.depth = 0

    # ------------------------------------------------------------- objects
    def alloc(self, node, tag="", copies=(), cls=None):
        o = ("new", self.fi.module.name, self.fi.qual,
             getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag)
        if copies:
            self.copies[o] = frozenset(self.copies.get(o, frozenset())
                                       | frozenset(copies)) - {o}
        if cls is not None:
            self.classes[o] = cls
        return o

    def field(self, o, k, seen=None):
        """Objects stored in o under key k (None: any key)."""
        seen = seen or set()
        if (o, k) in seen or len(seen) > 40:
            return frozenset()
        seen.add((o, k))
        h = self.st.heap
        out = set()
        if k is None:
            for (p, q), v in h.items():
                if p == o:
                    out |= v
            out |= self.default(o, None, seen)
        else:
            if (o, k) in h:
                out |= h[(o, k)]
            else:
                out |= self.default(o, k, seen)
            if (o, None) in h:
                out |= h[(o, None)]
        return frozenset(out)

    def default(self, o, k, seen=None):
        if o[0] == "new":
            out = set()
            for c in self.copies.get(o, ()):
                if c != o:
                    out |= self.field(c, k, seen)
            return out
        if o[0] in ("fn", "cls", "num", "str"):
            return set()
        return {inside(o, k)}

    def read(self, v, k):
        out = set()
        for o in v.objs:
            out |= self.field(o, k)
        if v.elts is not None:
            if isinstance(k, int) and -len(v.elts) <= k < len(v.elts):
                return v.elts[k]
            for e in v.elts:
                out |= e.objs
        strs = {o for o in out if o[0] == "str"}
        if strs:
            out -= strs
            if not out and len(strs) <= 24:
                return Val((), tuple(sorted(o[1] for o in strs)))
        return Val(out)

    def store(self, v, k, val, node):
        objs = set(val.objs)
        if val.elts is not None:
            objs |= self.box(val, node).objs
        for o in v.objs:
            if o[0] in ("fn", "cls", "num", "str"):
                continue
            strong = len(v.objs) == 1 and k is not None
            old = frozenset() if strong else self.field(o, k) \
                if k is not None else self.st.heap.get((o, None),
                                                       frozenset())
            self.st.heap[(o, k)] = frozenset(objs) | old
            self.sum.stores.setdefault((o, k), set()).update(objs)

    def box(self, v, node):
        """Give a tuple value an object holding its elements."""
        if v.elts is None:
            if isinstance(v.kind, tuple) and not v.objs:
                return Val({("str", x) for x in v.kind}, v.kind)
            return v
        o = self.alloc(node, "tuple")
        for i, e in enumerate(v.elts):
            b = self.box(e, node)
            self.st.heap[(o, i)] = b.objs
        return Val({o}, v.kind)

    def changed(self, v, node, what):
        for o in v.objs:
            if o[0] in ("new", "fn", "cls", "num", "str"):
                continue
            s = Site(self.fi.module.relpath, getattr(node, "lineno", 0),
                     self.fi.qual, what)
            self.sum.muts.setdefault(o, {})[s.key()] = s

    # ----------------------------------------------------------------- run
    def run(self):
        a = self.fi.node.args
        self.st = State()
        for x in self.params:
            self.st.env[x] = Val({("P", x)})
        if a.vararg:
            o = self.alloc(a, "vararg")
            self.st.heap[(o, None)] = frozenset({("P", a.vararg.arg)})
            self.st.env[a.vararg.arg] = Val({o}, "star")
        if a.kwarg:
            o = self.alloc(a, "kwarg")
            self.st.heap[(o, None)] = frozenset({("P", a.kwarg.arg)})
            self.st.env[a.kwarg.arg] = Val({o}, "star")
        self.rets = None
        self.block(self.fi.node.body)
        self.sum.ret = self.box(self.rets, self.fi.node) \
            if self.rets is not None and self.rets.elts is not None and \
            False else (self.rets or EMPTY)
        for (o, k), v in (self.finals or {}).items():
            if o[0] == "new":
                self.sum.heap[(o, k)] = self.sum.heap.get(
                    (o, k), frozenset()) | v

    finals = None

    def leave(self):
        """Remember the heap at an exit."""
        if self.finals is None:
            self.finals = {}
        for k, v in self.st.heap.items():
            self.finals[k] = self.finals.get(k, frozenset()) | v

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            env[k] = vjoin(a.env.get(k), b.env.get(k))
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None:
                o, f = k
                z = x if x is not None else y
                if o[0] != "new" and f is not None:
                    z = z | {inside(o, f)}
                elif o[0] == "new" and f is not None and \
                        self.copies.get(o):
                    st, self.st = self.st, State({}, {})
                    z = z | self.default(o, f)
                    self.st = st
                heap[k] = frozenset(z)
            else:
                heap[k] = x if x == y else x | y
        return State(env, heap)

    def snap(self, s):
        return ({k: v.key() for k, v in s.env.items() if v is not None},
                dict(s.heap))

    # ----------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            if self.st is None:
                return
            self.stmt(s)
        if self.st is not None and body is self.fi.node.body and \
                not self.stack:
            self.leave()

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            m(s)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.bind(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        t = s.target
        v = self.ev(s.value)
        if isinstance(t, ast.Name):
            old = self.name(t.id, t)
            if old.kind not in ("num", "elem", "key") and not isinstance(
                    old.kind, tuple):
                self.changed(old, s, f"{t.id} is changed in place")
            if old.kind in ("num", "elem") and v.kind in ("num", "elem"):
                new = NUM
            else:
                # objects stay the same when changed in place
                new = Val(old.objs, "")
                self.absorb(new, v, s)
            self.setname(t.id, new)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            old = self.attr(b, t.attr, t)
            if old.kind != "num":
                self.changed(old, s,
                             f"{ast.unparse(t)} is changed in place")
            if not self.is_self(t.value):
                self.changed(b, s, f"{ast.unparse(t)} is assigned")
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            kv = self.ev(t.slice)
            k = self.const_key(t.slice)
            self.changed(b, s, f"{ast.unparse(t)} is changed in place")
            if isinstance(k, tuple) or self.keylike(kv):
                old = self.item(b, kv, t)
                if old.kind not in ("num", "elem"):
                    self.changed(Val({o for o in old.objs
                                      if not self.plain(o)}), s,
                                 f"{ast.unparse(t)} is changed in place")

    def plain(self, o):
        """Is it an entry of a dictionary of options?"""
        r = root(o)
        return r[0] == "P" and any(w in r[1] for w in (
            "kwargs", "config", "options", "params"))

    def absorb(self, dst, src, node):
        """Elements of src become elements of dst (list += list)."""
        inner = self.read(src, None)
        objs = set(inner.objs)
        for o in dst.objs:
            if o[0] == "new" and objs:
                self.st.heap[(o, None)] = self.st.heap.get(
                    (o, None), frozenset()) | objs

    def is_self(self, e):
        return isinstance(e, ast.Name) and e.id == self.me and \
            self.st.env.get(e.id) is not None and \
            self.st.env[e.id].objs == frozenset({("P", self.me)})

    def bind(self, t, v, node):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Name) and v.elts is None:
                    r = self.read(v, i)
                    self.bind(x, Val(r.objs, "elem" if v.objs else "",
                                     r.elts), node)
                elif isinstance(x, ast.Starred):
                    self.bind(x.value, Val(self.read(v, None).objs), node)
                elif v.elts is not None and len(v.elts) == len(t.elts):
                    self.bind(x, v.elts[i], node)
                else:
                    self.bind(x, self.read(v, i), node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            if not self.is_self(t.value):
                self.changed(b, node, f"{ast.unparse(t)} is assigned")
            self.store(b, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            kv = self.ev(t.slice)
            k = self.const_key(t.slice)
            self.changed(b, node, f"{ast.unparse(t)} is assigned")
            if isinstance(kv.kind, tuple) and len(kv.kind) > 1:
                for x in kv.kind:
                    self.store(b, x, vjoin(v, self.read(b, x)), node)
            elif isinstance(kv.kind, tuple):
                self.store(b, kv.kind[0], v, node)
            else:
                self.store(b, k, v, node)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, node)

    def const_key(self, e):
        if isinstance(e, ast.Constant) and isinstance(
                e.value, (str, int)) and not isinstance(e.value, bool):
            return e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and \
                isinstance(e.operand, ast.Constant):
            return None
        if isinstance(e, ast.Tuple):
            try:
                return ("tuple", ast.unparse(e)) if all(
                    isinstance(ast.literal_eval(x), int)
                    for x in e.elts) else None
            except ValueError:
                return None
        return None

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.changed(self.ev(t.value), s,
                             f"{ast.unparse(t)} is deleted")
            elif isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)

    def s_If(self, s):
        self.ev(s.test)
        a = self.st
        self.st = a.copy()
        self.block_in(s.body)
        x = self.st
        self.st = a
        self.block_in(s.orelse)
        self.st = self.join(x, self.st)

    def block_in(self, body):
        for s in body:
            if self.st is None:
                return
            self.stmt(s)

    def loop(self, s, bind):
        brk0, self.brk = getattr(self, "brk", None), None
        cont0, self.cont = getattr(self, "cont", None), None
        for _ in range(6):
            before = self.snap(self.st)
            start = self.st.copy()
            bind()
            self.block_in(s.body)
            self.st = self.join(start, self.join(self.st, self.cont))
            if self.snap(self.st) == before:
                break
        self.block_in(s.orelse)
        self.st = self.join(self.st, self.brk)
        self.brk, self.cont = brk0, cont0

    def s_For(self, s):
        it = self.ev(s.iter)

        def b():
            self.bind(s.target, self.element(it), s)
        self.loop(s, b)

    def element(self, it):
        """Value of one element of an iterable."""
        if it.kind == "range":
            return NUM
        if it.kind == "keys" or it.kind == "key":
            return Val((), "key")
        if it.kind == "items":
            return Val((), "", [Val((), "key"), self.read(it, None)])
        if it.elts is not None:
            if it.kind == "zip":
                return Val((), "", [self.element(x) for x in it.elts])
            if it.kind == "enumerate":
                return Val((), "", [NUM, self.element(it.elts[0])])
            out = None
            for x in it.elts:
                out = vjoin(out, x)
            return out or EMPTY
        r = self.read(it, None)
        if any(o[0] not in ("new", "fn", "cls", "str") for o in it.objs):
            # a dictionary yields its keys, a sequence its items
            return Val(r.objs, r.kind if isinstance(r.kind, tuple) and all(
                o[0] in ("new", "fn", "cls", "str") for o in it.objs)
                else "key", r.elts)
        return r

    def s_While(self, s):
        self.loop(s, lambda: self.ev(s.test))

    def s_Break(self, s):
        self.brk = self.join(getattr(self, "brk", None), self.st)
        self.st = None

    def s_Continue(self, s):
        self.cont = self.join(getattr(self, "cont", None), self.st)
        self.st = None

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NUM
        if self.stack:
            r = self.stack[-1]
            r[0] = vjoin(r[0], v)
            r[1] = self.join(r[1], self.st)
        else:
            self.rets = vjoin(self.rets, v)
            self.leave()
        self.st = None

    def s_Raise(self, s):
        if s.exc is not None:
            self.ev(s.exc)
        if not self.stack:
            self.leave()
        self.st = None

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, s)
        self.block_in(s.body)

    def s_Try(self, s):
        start = self.st.copy()
        self.block_in(s.body)
        mid = self.st
        h0 = self.join(start, mid)
        if mid is not None:
            self.block_in(s.orelse)
        out = self.st
        for h in s.handlers:
            self.st = h0.copy()
            if h.name:
                self.st.env[h.name] = EMPTY
            self.block_in(h.body)
            out = self.join(out, self.st)
        self.st = out
        if s.finalbody:
            if self.st is None:
                self.st = h0.copy()
                self.block_in(s.finalbody)
                self.st = None
            else:
                self.block_in(s.finalbody)

    def s_FunctionDef(self, s):
        self.st.env[s.name] = Val({("fn", "local", s)}, "")
        # changes made by the body whoever calls it
        self.local_call(s, [], {}, s)

    def s_Import(self, s):
        pass

    s_ImportFrom = s_Global = s_Nonlocal = s_Pass = s_ClassDef = s_Import

    # ---------------------------------------------------------- expressions
    def name(self, n, node):
        v = self.st.env.get(n)
        if v is not None:
            return v
        r = self.fi.module.resolve(n)
        if isinstance(r, FuncInfo):
            return Val({("fn", "pkg", r)})
        if isinstance(r, ClassInfo):
            return Val({("cls", r)})
        if isinstance(r, tuple) and r[0] == "const":
            return Val({("G", r[1].name, n)})
        return EMPTY

    def setname(self, n, v):
        self.st.env[n] = v

    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        out = EMPTY
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return out

    def e_Constant(self, e):
        return Val((), (e.value,)) if isinstance(e.value, str) else NUM

    def e_JoinedStr(self, e):
        return Val((), "key")

    def e_Name(self, e):
        return self.name(e.id, e)

    def e_Attribute(self, e):
        r = self.fi.module.resolve_expr(e) if not self.is_local(e) else None
        if isinstance(r, FuncInfo):
            return Val({("fn", "pkg", r)})
        if isinstance(r, ClassInfo):
            return Val({("cls", r)})
        if isinstance(r, (str, tuple)):
            return EMPTY
        return self.attr(self.ev(e.value), e.attr, e)

    def is_local(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id in self.st.env

    def attr(self, b, name, node):
        if name in SAME_ATTR:
            return Val(b.objs, "loc" if name in ("loc", "iloc", "at", "iat")
                       else "")
        if name in ("shape", "size", "ndim", "dtype", "columns"):
            return NUM
        return self.read(b, name)

    def e_Subscript(self, e):
        b = self.ev(e.value)
        kv = self.ev(e.slice)
        if isinstance(e.slice, ast.Slice):
            if b.elts is not None:
                return Val(self.box(b, e).objs, "slice")
            return Val(b.objs, "slice")
        if isinstance(e.slice, ast.Tuple) and any(
                isinstance(x, ast.Slice) for x in e.slice.elts):
            return Val(b.objs, "slice")
        if kv.kind == "idx" or b.kind == "loc":
            return Val((), "")
        if b.kind == "idx":
            return Val((), "idx")
        return self.item(b, kv, e)

    def item(self, b, kv, e):
        """Value of b[k]."""
        if isinstance(kv.kind, tuple):
            out = None
            for x in kv.kind:
                out = vjoin(out, self.read(b, x))
            return out
        k = self.const_key(e.slice)
        if k is None and isinstance(e.slice, ast.UnaryOp):
            if b.elts is not None and isinstance(e.slice.op, ast.USub) and \
                    isinstance(e.slice.operand, ast.Constant) and isinstance(
                        e.slice.operand.value, int) and \
                    e.slice.operand.value <= len(b.elts):
                return b.elts[-e.slice.operand.value]
        r = self.read(b, k)
        if isinstance(k, tuple) or self.keylike(kv):
            return r
        if kv.kind == "num":
            # an element of an array is a plain value
            return Val(r.objs, "elem", r.elts)
        # elements picked from an array are a new array
        return Val({o for o in r.objs if o[0] == "new"}, "", r.elts)

    def keylike(self, kv):
        """Is the key certainly not an index into an array?"""
        return kv.kind == "key" or isinstance(kv.kind, tuple) or any(
            o[0] == "new" and o[-1] == "tuple" for o in kv.objs) or \
            kv.elts is not None

    def e_Slice(self, e):
        for c in (e.lower, e.upper, e.step):
            if c is not None:
                self.ev(c)
        return NUM

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            return Val((), "idx")
        if a.kind == "num" and b.kind == "num":
            return NUM
        if isinstance(a.kind, tuple) or isinstance(b.kind, tuple):
            if isinstance(a.kind, tuple) and isinstance(b.kind, tuple) and \
                    isinstance(e.op, ast.Add) and \
                    len(a.kind) * len(b.kind) <= 24:
                return Val((), tuple(sorted({x + y for x in a.kind
                                             for y in b.kind})))
            return Val((), "key")
        if isinstance(e.op, (ast.Add, ast.Mult)):
            src = {o for v in (a, b) for o in self.box(v, e).objs}
            src = {o for o in src if o[0] == "new"}
            if src:
                return Val({self.alloc(e, "sum", src)})
        return EMPTY

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Invert):
            return Val((), "idx")
        return NUM if v.kind == "num" else EMPTY

    def e_Compare(self, e):
        self.ev(e.left)
        for c in e.comparators:
            self.ev(c)
        return Val((), "idx")

    def e_BoolOp(self, e):
        out = None
        for v in e.values:
            out = vjoin(out, self.ev(v))
        return out

    def e_IfExp(self, e):
        self.ev(e.test)
        return vjoin(self.ev(e.body), self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind(e.target, v, e)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Tuple(self, e):
        return Val((), "", [self.ev(x) for x in e.elts]) \
            if not any(isinstance(x, ast.Starred) for x in e.elts) else \
            self.seq(e)

    def seq(self, e):
        o = self.alloc(e)
        for k in [k for k in self.st.heap if k[0] == o]:
            del self.st.heap[k]
        for i, x in enumerate(e.elts):
            v = self.ev(x)
            if isinstance(x, ast.Starred):
                v = self.read(v, None)
                i = None
            v = self.box(v, x)
            self.st.heap[(o, i)] = self.st.heap.get((o, i), frozenset()) | \
                v.objs
        return Val({o})

    e_List = e_Set = seq

    def e_Dict(self, e):
        o = self.alloc(e)
        for k in [k for k in self.st.heap if k[0] == o]:
            del self.st.heap[k]
        self.copies.pop(o, None)
        for k, x in zip(e.keys, e.values):
            v = self.box(self.ev(x), x)
            if k is None:
                self.copies[o] = frozenset(self.copies.get(o, frozenset())
                                           | v.objs) - {o}
            else:
                self.ev(k)
                kk = self.const_key(k)
                self.st.heap[(o, kk)] = v.objs | (
                    self.st.heap.get((o, kk), frozenset())
                    if kk is None else frozenset())
        return Val({o})

    def comp(self, e, elts):
        saved = dict(self.st.env)
        for g in e.generators:
            it = self.ev(g.iter)
            self.bind(g.target, self.element(it), e)
            for c in g.ifs:
                self.ev(c)
        vals = [self.box(self.ev(x), x) for x in elts]
        self.st.env = saved
        o = self.alloc(e)
        self.st.heap[(o, None)] = vals[-1].objs
        return Val({o})

    def e_ListComp(self, e):
        return self.comp(e, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        return self.comp(e, [e.key, e.value])

    def e_Lambda(self, e):
        return Val({("fn", "local", e)})

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        self.an.calls += 1
        f = e.func
        args = [(isinstance(a, ast.Starred), self.ev(a)) for a in e.args]
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        for k, v in kws:
            if k == "out":
                self.changed(v, e, "used as output argument")
            if k == "inplace" and isinstance(f, ast.Attribute):
                self.changed(self.ev(f.value), e, "changed in place")
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == "super" \
                and self.fi.cls is not None:
            t = self.fi.cls.find(f.attr, self.fi.cls)
            if t is not None:
                return self.call(t, [(False, self.st.env.get(
                    self.me, EMPTY))] + args, kws, e)
            return EMPTY
        # method of self or of an object of the package
        if isinstance(f, ast.Attribute):
            name = None
            r = None if self.is_local(f) else self.fi.module.resolve_expr(f)
            if isinstance(r, FuncInfo):
                return self.call(r, args, kws, e)
            if isinstance(r, ClassInfo):
                return self.construct(r, args, kws, e)
            if isinstance(r, str):
                return self.external(r, args, kws, e)
            b = self.ev(f.value)
            if isinstance(f.value, ast.Name) and f.value.id not in \
                    self.st.env and isinstance(self.fi.module.resolve(
                        f.value.id), ClassInfo):
                t = self.fi.module.resolve(f.value.id).find(f.attr)
                if t is not None:
                    return self.call(t, args, kws, e)
            targets = self.methods(b, f.attr)
            if targets:
                out = None
                for t in targets:
                    out = vjoin(out, self.call(t, [(False, b)] + args, kws,
                                               e))
                return out
            fns = [o for o in self.read(b, f.attr).objs if o[0] == "fn"]
            if fns:
                return self.call_value(Val(fns), args, kws, e)
            return self.method(b, f.attr, args, kws, e)
        if isinstance(f, ast.Name):
            if f.id in self.st.env:
                return self.call_value(self.st.env[f.id], args, kws, e)
            r = self.fi.module.resolve(f.id)
            if isinstance(r, FuncInfo):
                return self.call(r, args, kws, e)
            if isinstance(r, ClassInfo):
                return self.construct(r, args, kws, e)
            return self.external(r if isinstance(r, str) else f.id, args,
                                 kws, e)
        return self.call_value(self.ev(f), args, kws, e)

    def methods(self, b, name):
        out = []
        for o in b.objs:
            c = None
            if o == ("P", self.me):
                c = self.fi.cls
            elif o in self.classes:
                c = self.classes[o]
            if c is None:
                continue
            for k in effects.family(self.repo, c):
                if name in k.methods and k.methods[name] not in out:
                    out.append(k.methods[name])
        return out

    def call_value(self, v, args, kws, e):
        out, hit = None, False
        for o in v.objs:
            if o[0] == "fn" and o[1] == "pkg":
                out = vjoin(out, self.call(o[2], args, kws, e))
                hit = True
            elif o[0] == "fn" and o[1] == "local":
                out = vjoin(out, self.local_call(o[2], args, kws, e))
                hit = True
            elif o[0] == "cls":
                out = vjoin(out, self.construct(o[1], args, kws, e))
                hit = True
        return out if hit else EMPTY

    def local_call(self, fn, args, kws, e):
        if self.depth > 3 or self.st is None:
            return EMPTY
        a = fn.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env0 = dict(self.st.env)
        for p in ps + [x.arg for x in a.kwonlyargs]:
            self.st.env[p] = EMPTY
        for p, (star, v) in zip(ps, args):
            if not star:
                self.st.env[p] = v
        for k, v in kws:
            if k:
                self.st.env[k] = v
        self.depth += 1
        if isinstance(fn, ast.Lambda):
            r = self.ev(fn.body)
        else:
            rec = [None, None]
            self.stack.append(rec)
            brk, cont = getattr(self, "brk", None), getattr(self, "cont",
                                                            None)
            self.block_in(fn.body)
            self.brk, self.cont = brk, cont
            self.stack.pop()
            self.st = self.join(self.st, rec[1])
            r = rec[0] or NUM
            if self.st is None:
                self.st = State({}, {})
        self.depth -= 1
        self.st.env = env0
        return r

    def construct(self, ci, args, kws, e):
        o = self.alloc(e, "inst", cls=ci)
        t = ci.find("__init__")
        if t is not None:
            self.call(t, [(False, Val({o}))] + args, kws, e)
        else:
            for (n, _), (star, v) in zip(ci.fields, args):
                self.st.heap[(o, n)] = self.box(v, e).objs
            for k, v in kws:
                if k:
                    self.st.heap[(o, k)] = self.box(v, e).objs
        return Val({o})

    def call(self, fi, args, kws, e):
        """Instantiate the summary of a function of the package."""
        s = self.an.summary(fi)
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        m = {}

        def give(p, v):
            m[p] = vjoin(m[p], v) if p in m else v
        i = 0
        for star, v in args:
            if star:
                inner = self.read(v, None)
                for p in ps[i:]:
                    give(p, inner)
                if a.vararg:
                    give(a.vararg.arg, inner)
                continue
            v = v if v.elts is None else self.box(v, e)
            if i < len(ps):
                give(ps[i], v)
            elif a.vararg:
                give(a.vararg.arg, v)
            i += 1
        names = set(ps) | {x.arg for x in a.kwonlyargs}
        for k, v in kws:
            v = v if v.elts is None else self.box(v, e)
            if k is None:
                inner = self.read(v, None)
                for p in names - set(m):
                    give(p, inner)
                if a.kwarg:
                    give(a.kwarg.arg, inner)
            elif k in names:
                give(k, v)
            elif a.kwarg:
                give(a.kwarg.arg, v)
        memo = {}

        def inst(o):
            if o in memo:
                return memo[o]
            memo[o] = frozenset()
            if o[0] == "P":
                r = m[o[1]].objs if o[1] in m else frozenset()
            elif o[0] == "in":
                out = set()
                for q in inst(o[1]):
                    out |= self.field(q, o[2])
                r = frozenset(out)
            elif o[0] == "new":
                n = ("new", o[1], o[2], o[3], o[4],
                     (o[5] if len(repr(o[5])) < 200 else "deep",
                      self.fi.qual, getattr(e, "lineno", 0),
                      getattr(e, "col_offset", 0)))
                r = frozenset({n})
                memo[o] = r
                if o in s.classes:
                    self.classes[n] = s.classes[o]
                if o in s.copies:
                    c = set()
                    for q in s.copies[o]:
                        c |= inst(q)
                    self.copies[n] = frozenset(
                        self.copies.get(n, frozenset()) | c) - {n}
                for (p, k), v in list(s.heap.items()):
                    if p == o:
                        w = set()
                        for q in v:
                            w |= inst(q)
                        self.st.heap[(n, k)] = frozenset(w)
            else:
                r = frozenset({o})
            memo[o] = r
            return r
        for o, sites in list(s.muts.items()):
            for q in inst(o):
                if q[0] in ("new", "fn", "cls", "num", "str"):
                    continue
                d = self.sum.muts.setdefault(q, {})
                if len(d) < 60:
                    d.update(sites)
        for (o, k), v in list(s.stores.items()):
            w = set()
            for q in v:
                w |= inst(q)
            for q in inst(o):
                if q[0] in ("fn", "cls", "num", "str"):
                    continue
                old = self.field(q, k) if k is not None else \
                    self.st.heap.get((q, None), frozenset())
                self.st.heap[(q, k)] = frozenset(w) | old
                if q[0] != "new":
                    self.sum.stores.setdefault((q, k), set()).update(w)

        def instv(v):
            out = set()
            for o in v.objs:
                out |= inst(o)
            return Val(out, v.kind, None if v.elts is None else
                       [instv(x) for x in v.elts])
        return instv(s.ret)

    def merge(self, b, v):
        """dict.update"""
        for o in b.objs:
            for q in v.objs:
                for (p, k), w in list(self.st.heap.items()):
                    if p == q:
                        old = self.field(o, k) if k is not None else \
                            self.st.heap.get((o, None), frozenset())
                        self.st.heap[(o, k)] = old | w
                        self.sum.stores.setdefault((o, k), set()).update(w)
            src = {q for q in v.objs if q[0] != "new"}
            for q in v.objs:
                src |= self.copies.get(q, frozenset())
            if o[0] == "new":
                self.copies[o] = frozenset(self.copies.get(
                    o, frozenset()) | src) - {o}
            elif src:
                # entries under keys that are not known
                w = set()
                for q in src:
                    w |= self.field(q, None)
                self.st.heap[(o, None)] = frozenset(
                    w | self.st.heap.get((o, None), frozenset()))
                self.sum.stores.setdefault((o, None), set()).update(w)

    def external(self, name, args, kws, e):
        name = name.replace("np.", "numpy.") if name.startswith("np.") \
            else name
        vals = [v for _, v in args]
        if name in CHANGES_ARG0 and vals:
            self.changed(vals[0], e, f"changed by {name}")
        last = name.split(".")[-1]
        if name in NUM_FUNCS:
            if name == "range":
                return Val((), "range")
            return NUM
        if name in ("zip", "enumerate"):
            return Val((), name, vals)
        if name == "getattr" and vals:
            k = e.args[1].value if len(e.args) > 1 and isinstance(
                e.args[1], ast.Constant) else None
            return self.read(vals[0], k)
        if name == "vars" and vals:
            return vals[0]
        if name in SAME_FUNC and vals:
            return Val(vals[0].objs, vals[0].kind)
        if name in ("max", "min", "next") and vals:
            if len(vals) == 1:
                return self.element(vals[0])
            out = None
            for v in vals:
                out = vjoin(out, v)
            return out
        if name in SHALLOW:
            src = set()
            for v in vals:
                src |= self.box(v, e).objs if v.kind not in (
                    "zip", "enumerate") else set()
            o = self.alloc(e, "copy", src)
            for k, v in kws:
                if k:
                    self.st.heap[(o, k)] = self.box(v, e).objs
            for v in vals:
                if v.kind in ("zip", "enumerate"):
                    el = self.box(self.element(v), e)
                    self.st.heap[(o, None)] = el.objs
            return Val({o})
        if name == "numpy.array" and any(
                k == "copy" and isinstance(x.value, ast.Constant)
                and x.value.value is False
                for (k, _), x in zip(kws, e.keywords)) and vals:
            return Val(vals[0].objs)
        if last in ("delayed", "partial", "wraps") and vals:
            fn = [o for o in vals[0].objs if o[0] in ("fn", "cls")]
            if fn and len(vals) > 1 or kws and fn:
                self.call_value(Val(fn), args[1:], kws, e)
            return Val(fn)
        if name == "map" and vals:
            r = self.call_value(vals[0], [(False, self.element(v))
                                          for v in vals[1:]], [], e)
            o = self.alloc(e, "map")
            self.st.heap[(o, None)] = self.box(r, e).objs
            return Val({o})
        # functions handed to a library routine are called with unknown
        # arguments
        for _, v in args + [(0, v) for _, v in kws]:
            fn = [o for o in v.objs if o[0] == "fn" and o[1] == "local"]
            if fn:
                self.call_value(Val(fn), [], [], e)
        if name in INDEX_FUNCS:
            return Val((), "idx")
        return EMPTY

    def method(self, b, name, args, kws, e):
        vals = [v for _, v in args]
        if name in MUTATORS and not (b.kind == "slice"):
            self.changed(b, e, f".{name}(...)")
            if name in ("append", "insert", "add") and vals:
                self.store(b, None, vals[-1], e)
            elif name in ("extend", "update") and vals:
                for v in vals:
                    inner = self.read(v, None)
                    if name == "update":
                        self.merge(b, v)
                    else:
                        self.store(b, None, inner, e)
            elif name == "setdefault" and len(vals) > 1:
                k = self.const_key(e.args[0])
                old = self.read(b, k)
                self.store(b, None, vals[1], e)
                return vjoin(old, vals[1])
            if name in ("pop", "popitem"):
                return self.read(b, self.const_key(e.args[0])
                                 if e.args else None)
            for k, v in kws:
                if name == "update" and k:
                    self.store(b, k, v, e)
            return NUM
        if name in SAME_METH:
            return Val(b.objs, b.kind)
        if name == "get" and vals:
            r = self.read(b, vals[0].kind[0] if isinstance(
                vals[0].kind, tuple) and len(vals[0].kind) == 1 else None)
            return vjoin(r, vals[1]) if len(vals) > 1 else r
        if name == "keys":
            return Val((), "keys")
        if name == "items":
            return Val(b.objs, "items")
        if name == "values":
            return Val(b.objs, "values")
        if name == "copy":
            return Val({self.alloc(e, "copy", b.objs)})
        if name in ("argmax", "argmin", "item", "index", "count"):
            return NUM
        if name in ("any", "all", "nonzero", "argsort", "isin"):
            return Val((), "idx")
        return EMPTY


class Solution:
    """Facts about whole objects: what the attributes of an instance may
    hold after any sequence of public calls."""

    def __init__(self, repo, entries):
        self.repo = repo
        self.an = Analysis(repo)
        self.attrs = {}     # (class name, attr) -> objects
        self.heap = {}
        self.copies = {}
        self.muts = []      # (entry, object, site)
        for fi in entries:
            self.add(fi)

    def base(self, ci):
        m = [c for c in ci.mro()]
        return m[-1].name

    def add(self, fi):
        s = self.an.summary(fi)
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        me = ps[0] if fi.cls is not None and "staticmethod" not in \
            fi.decorators and ps else None
        scalar = scalar_params(fi)

        def conv(o):
            if o[0] == "P":
                if o[1] == me:
                    return ("self", self.base(fi.cls))
                if o[1] in scalar:
                    return ("num",)
                return ("own", fi.qual, o[1])
            if o[0] == "in":
                return ("in", conv(o[1]), o[2])
            return o
        for o, c in s.copies.items():
            self.copies.setdefault(o, set()).update(conv(x) for x in c)
        for (o, k), v in list(s.stores.items()) + list(s.heap.items()):
            self.heap.setdefault((conv(o), k), set()).update(
                conv(x) for x in v)
        for o, sites in s.muts.items():
            for site in sites.values():
                self.muts.append((fi, conv(o), site))

    def resolve(self, o, seen=None):
        """Objects owned by a caller (or plain state) that o may be."""
        seen = set() if seen is None else seen
        if o in seen:
            return set()
        seen.add(o)
        if o[0] == "own" or o[0] == "G":
            return {o}
        if o[0] == "in":
            out = set()
            for q in self.resolve(o[1], seen):
                out |= self.fields(q, o[2], seen)
            return out
        if o[0] in ("self", "new"):
            return {o}
        return set()

    def fields(self, q, k, seen):
        out = set()
        if q[0] in ("own", "G") or q[0] == "in":
            out.add(("in", q, k) if q[0] != "in" else q)
        hit = False
        for (p, f), v in self.heap.items():
            if p == q and (k is None or f is None or f == k):
                hit = True
                for x in v:
                    out |= self.resolve(x, seen)
        for c in self.copies.get(q, ()):
            for x in self.resolve(c, seen):
                out |= self.fields(x, k, seen)
        if q[0] == "self" and not hit:
            out.add(("state", q[1], k))
        return out

    def owned(self, o):
        """Caller-owned parameters that o belongs to."""
        out = set()
        for q in self.resolve(o):
            r = root(q)
            if r[0] == "own":
                out.add((r[1], r[2]))
        return out


def scalar_params(fi):
    """Parameters whose default says that they are plain values."""
    a = fi.node.args
    pos = a.posonlyargs + a.args
    out = set()
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            list(zip(a.kwonlyargs, a.kw_defaults)):
        if isinstance(d, ast.UnaryOp):
            d = d.operand
        if isinstance(d, ast.Constant) and d.value is not None:
            out.add(x.arg)
    return out
