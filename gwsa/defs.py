"""Definite assignment of local variables and of attributes of self.

A forward dataflow analysis over the syntax tree.  A state holds the cells
certainly assigned, the cells assigned under known conditions (sets of test
literals), and the test literals known to hold on this path.  Loop bodies are
taken to run at least once (whether a loop runs is a runtime quantity)."""
import ast
import copy
import re


def as_boolop(test):
    """any([a, b]) / all((a, b)) written as an or / and."""
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and \
            test.func.id in ("any", "all") and len(test.args) == 1 and \
            isinstance(test.args[0], (ast.List, ast.Tuple)) and \
            len(test.args[0].elts) > 1:
        return ast.BoolOp(ast.Or() if test.func.id == "any" else ast.And(),
                          test.args[0].elts)
    return test


PARSED = {}


def evaluate(text, facts, depth=0):
    """True/False/None: value of a test under known literals."""
    if (text, True) in facts:
        return True
    if (text, False) in facts:
        return False
    if depth > 4:
        return None
    e = PARSED.get(text)
    if e is None:
        try:
            e = PARSED[text] = ast.parse(text, mode="eval").body
        except SyntaxError:
            e = PARSED[text] = ast.Constant(None)
    return value(e, facts, depth)


def value(e, facts, depth=0):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = value(e.operand, facts, depth)
        return None if v is None else not v
    e = as_boolop(e)
    if isinstance(e, ast.BoolOp):
        vs = [value(x, facts, depth + 1) for x in e.values]
        if isinstance(e.op, ast.And):
            return False if False in vs else True if all(
                v is True for v in vs) else None
        return True if True in vs else False if all(
            v is False for v in vs) else None
    for t, p in literals(e, True):
        if (t, p) in facts:
            return True
        if (t, not p) in facts:
            return False
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
            e.ops[0], ast.Eq) and isinstance(e.comparators[0], ast.Constant):
        left = ast.unparse(e.left)
        for t, p in facts:
            if p and t.startswith(left + " == ") and t != ast.unparse(e):
                try:
                    ast.literal_eval(t[len(left) + 4:])
                    return False
                except (ValueError, SyntaxError):
                    pass
    return None


def literals(test, pos):
    """Literals that certainly hold when test evaluates to pos."""
    test = as_boolop(test)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return literals(test.operand, not pos)
    if isinstance(test, ast.BoolOp):
        conj = isinstance(test.op, ast.And)
        if conj == pos:
            out = set()
            for v in test.values:
                out |= literals(v, pos)
            return out | {(ast.unparse(test), pos)}
        return {(ast.unparse(test), pos)}
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = test.ops[0]
        for neg, p in ((ast.NotEq, ast.Eq), (ast.IsNot, ast.Is),
                       (ast.NotIn, ast.In), (ast.GtE, ast.Lt),
                       (ast.LtE, ast.Gt)):
            if isinstance(op, neg):
                t = ast.unparse(ast.Compare(test.left, [p()],
                                            test.comparators))
                return {(t, not pos)}
    return {(ast.unparse(test), pos)}


def constant_truth(test):
    if isinstance(test, ast.Constant):
        return bool(test.value)
    return None


ENUM = re.compile(r"^([\w.]+) == ('[^']*')$|^('[^']*') in ([\w.]+)$")
MENTION = {}


def mentions(text, cell):
    k = (text, cell)
    r = MENTION.get(k)
    if r is None:
        r = MENTION[k] = re.search(
            r"(?<![\w.])" + re.escape(cell) + r"(?!\w)", text) is not None
    return r


class Put(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Constant(self.value), n)
        return n


class St:
    __slots__ = ("must", "cond", "facts")

    def __init__(self, must=(), cond=None, facts=()):
        self.must, self.cond = set(must), dict(cond or {})
        self.facts = set(facts)

    def copy(self):
        return St(self.must, self.cond, self.facts)

    def assign(self, cell):
        self.kill(cell)
        self.must.add(cell)

    def kill(self, cell):
        self.facts = {f for f in self.facts if not mentions(f[0], cell)}
        for c, alts in list(self.cond.items()):
            n = frozenset(a for a in alts
                          if not any(mentions(t, cell) for t, _ in a))
            if n != alts:
                self.cond[c] = n

    def learn(self, lits):
        self.facts |= lits

    def has(self, cell):
        if cell in self.must:
            return True
        alts = self.cond.get(cell, ())
        for a in alts:
            if all(evaluate(t, self.facts) is p for t, p in a):
                return True
        # the values of an enumeration are taken to be exhausted by the
        # constants it is compared with
        seen = set()
        for a in alts:
            for t, p in a:
                m = p and ENUM.match(t)
                if m:
                    k = m.group(1) or m.group(4)
                    v = m.group(2) or m.group(3)
                    if any(x == k and y != v for x, y in seen):
                        return True
                    seen.add((k, v))
        return False


def contradictory(facts):
    return any((t, not p) in facts for t, p in facts)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    must = a.must & b.must
    facts = a.facts & b.facts
    cond = {}
    for c in set(a.cond) | set(b.cond) | (a.must ^ b.must):
        if c in must:
            continue
        alts = set()
        for x, y in ((a, b), (b, a)):
            own = frozenset(x.facts - facts)
            if c in x.must:
                # any single fact that fails on the other side selects this
                # side
                for f in own:
                    if evaluate(f[0], y.facts) is (not f[1]):
                        alts.add(frozenset([f]))
                if own:
                    alts.add(own)
                # whatever rules out the other side
                for f in y.facts - facts:
                    alts.add(frozenset([(f[0], not f[1])]))
            else:
                for k in x.cond.get(c, ()):
                    if y.has(c) or k in y.cond.get(c, ()):
                        alts.add(k)
                    alts.add(k | own)
        # both sides assign it, each under its own condition
        alts = {k for k in alts if not any(
            o < k for o in alts)} if len(alts) < 60 else set(
                list(alts)[:60])
        if alts:
            cond[c] = frozenset(alts)
    # covered by complementary conditions
    for c, alts in list(cond.items()):
        for k in alts:
            if len(k) == 1:
                (t, p), = k
                if frozenset([(t, not p)]) in alts:
                    must.add(c)
                    break
    return St(must, cond, facts)


class Walk:
    """Evaluate one body.  Subclasses see every read and may follow calls."""

    def __init__(self, fn, me=None):
        self.fn, self.me = fn, me
        self.locals = local_names(fn)
        self.ret = None
        self.brk, self.cont = [], []
        self.reports, self.unsure = [], []
        self.loopvars, self.counters = set(), set()
        for n in ast.walk(fn):
            if isinstance(n, ast.For):
                it, t = n.iter, n.target
                if isinstance(it, ast.Call) and isinstance(
                        it.func, ast.Name):
                    if it.func.id == "enumerate" and len(it.args) == 1 and \
                            isinstance(t, ast.Tuple) and isinstance(
                                t.elts[0], ast.Name):
                        self.counters.add(t.elts[0].id)
                    elif it.func.id == "range" and len(it.args) == 1 and \
                            isinstance(t, ast.Name):
                        self.counters.add(t.id)
                self.loopvars |= {x.id for x in ast.walk(n.target)
                                  if isinstance(x, ast.Name)}

    # hooks -----------------------------------------------------------------
    def read(self, cell, node):
        if not self.st.has(cell):
            if any(mentions(t, v) for t, _ in self.st.facts
                   for v in self.loopvars):
                self.unsure.append((cell, node))
                return
            self.reports.append((cell, node))

    def called(self, e):
        pass

    # ---------------------------------------------------------------- bodies
    def run(self, st):
        self.st = st
        self.block(self.fn.body if not isinstance(self.fn, ast.Lambda)
                   else [ast.Expr(self.fn.body)])
        return join(self.ret, self.st)

    def block(self, body, depth=0):
        for i, s in enumerate(body):
            if self.st is None:
                return
            j = self.same_test(body, i) if depth < 4 else i
            if j > i:
                # x = a if c else b; ...; if c: ... : one path for each value
                t = s.value
                here = self.st
                ends = []
                self.ex(t.test)
                for pos, v in ((True, t.body), (False, t.orelse)):
                    self.st = here.copy()
                    self.st = self.branch(t.test, pos)
                    if self.st is not None:
                        self.block([ast.copy_location(
                            ast.Assign(s.targets, v), s)] + body[i + 1:j + 1],
                            depth + 1)
                    ends.append(self.st)
                self.st = join(*ends)
                if self.st is not None:
                    self.block(body[j + 1:], depth)
                return
            self.stmt(s)

    def same_test(self, body, i):
        """Index of the last statement of the block that decides on the test
        by which statement i chooses its value."""
        s = body[i]
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1
                and isinstance(s.value, ast.IfExp)):
            return i
        t = ast.dump(s.value.test)
        for j in range(len(body) - 1, i, -1):
            x = body[j]
            if isinstance(x, ast.If) or isinstance(
                    x, ast.Assign) and isinstance(x.value, ast.IfExp):
                y = x.test if isinstance(x, ast.If) else x.value.test
                if isinstance(y, ast.UnaryOp) and isinstance(y.op, ast.Not):
                    y = y.operand
                if ast.dump(y) == t:
                    return j
        return i

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m:
            m(s)
            return
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ex(c)

    def s_Assign(self, s):
        self.ex(s.value)
        for t in s.targets:
            self.target(t)
        # x = <value>: facts about constants
        if len(s.targets) == 1 and isinstance(s.value, ast.Constant) and \
                self.cell(s.targets[0]):
            c = self.cell(s.targets[0])
            v = s.value.value
            if v is None or isinstance(v, bool):
                self.st.learn({(f"{c} is None", v is None)})
            if v is None or isinstance(v, bool):
                self.st.learn({(c, bool(v))})
            if isinstance(v, str):
                self.st.learn({(f"{c} == {v!r}", True)})

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.ex(s.value)
            self.target(s.target)

    def s_AugAssign(self, s):
        self.ex(s.value)
        c = self.cell(s.target)
        if c is not None:
            self.read(c, s.target)
        self.target(s.target)

    def cell(self, t):
        if isinstance(t, ast.Name) and t.id in self.locals:
            return t.id
        if isinstance(t, ast.Attribute) and isinstance(
                t.value, ast.Name) and t.value.id == self.me:
            return "self." + t.attr
        return None

    def target(self, t):
        if self.st is None:
            return
        c = self.cell(t)
        if c is not None:
            self.st.assign(c)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x)
        elif isinstance(t, ast.Starred):
            self.target(t.value)
        else:
            for x in ast.iter_child_nodes(t):
                if isinstance(x, ast.expr):
                    self.ex(x)

    def s_Delete(self, s):
        for t in s.targets:
            c = self.cell(t)
            if c is not None:
                self.read(c, t)
                self.st.kill(c)
                self.st.must.discard(c)
                self.st.cond.pop(c, None)
            else:
                self.target(t)

    def spelled_out(self, t):
        """A test of constants gone through one by one, as and / or."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            x = self.spelled_out(t.operand)
            return t if x is t.operand else ast.UnaryOp(ast.Not(), x)
        if isinstance(t, ast.BoolOp):
            vs = [self.spelled_out(v) for v in t.values]
            return t if all(x is y for x, y in zip(vs, t.values)) else \
                ast.BoolOp(t.op, vs)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and \
                t.func.id in ("any", "all") and len(t.args) == 1:
            g = t.args[0]
            if isinstance(g, (ast.GeneratorExp, ast.ListComp)) and \
                    len(g.generators) == 1:
                c = g.generators[0]
                e = g.elt
                if c.ifs and t.func.id == "any":
                    e = ast.BoolOp(ast.And(), list(c.ifs) + [e])
                elif c.ifs:
                    return t
                return self.each(e, c, ast.Or() if t.func.id == "any"
                                 else ast.And()) or t
            return t
        neg, x = False, t
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(
                x.comparators[0], ast.Constant) and \
                x.comparators[0].value == 0 and isinstance(
                    x.ops[0], (ast.Gt, ast.NotEq, ast.Eq)):
            neg, x = isinstance(x.ops[0], ast.Eq), x.left
            if not (isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id == "len" and x.args):
                return t
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ("len", "bool") and len(x.args) == 1:
            x = x.args[0]
        if isinstance(x, ast.Name):
            n, x = x, self.only_value(x)
            y = as_boolop(x)
            if n is t and (isinstance(y, (
                    ast.BoolOp, ast.Compare, ast.UnaryOp)) or isinstance(
                        y, ast.Call) and isinstance(y.func, ast.Name)
                    and y.func.id in ("any", "all")) and self.settled(x):
                return self.spelled_out(y)
        while isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ("list", "tuple", "set", "sorted") and \
                len(x.args) == 1:
            x = x.args[0]
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)) and len(x.generators) == 1 and \
                x.generators[0].ifs:
            c = x.generators[0]
            r = self.each(c.ifs[0] if len(c.ifs) == 1 else ast.BoolOp(
                ast.And(), list(c.ifs)), c, ast.Or())
            if r is not None:
                return ast.UnaryOp(ast.Not(), r) if neg else r
        return t

    def each(self, e, c, op):
        cs = self.constants(c.iter) if isinstance(c.target, ast.Name) \
            else None
        if not cs:
            return None
        vs = [ast.fix_missing_locations(
            Put(c.target.id, v).visit(copy.deepcopy(e))) for v in cs]
        return vs[0] if len(vs) == 1 else ast.BoolOp(op, vs)

    def settled(self, x):
        """Do the names in x keep their values after it?"""
        ns = {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}
        if any(isinstance(n, ast.NamedExpr) for n in ast.walk(x)):
            return False
        # (variables of its comprehensions are its own)
        ns -= {n.id for n in ast.walk(x) if isinstance(n, ast.Name)
               and not isinstance(n.ctx, ast.Load)}
        for n in ast.walk(self.fn):
            if isinstance(n, (ast.For, ast.While)) and any(
                    y is x for y in ast.walk(n)):
                return False
            if isinstance(n, ast.Name) and n.id in ns and not isinstance(
                    n.ctx, ast.Load) and n.lineno >= x.lineno:
                return False
            if isinstance(n, (ast.Subscript, ast.Attribute)) and \
                    not isinstance(n.ctx, ast.Load) and isinstance(
                        n.value, ast.Name) and n.value.id in ns and \
                    n.lineno >= x.lineno:
                return False
        return True

    def only_value(self, name):
        defs = [n for n in ast.walk(self.fn) if isinstance(n, ast.Assign)
                and len(n.targets) == 1
                and isinstance(n.targets[0], ast.Name)
                and n.targets[0].id == name.id]
        stores = [n for n in ast.walk(self.fn) if isinstance(n, ast.Name)
                  and n.id == name.id and not isinstance(n.ctx, ast.Load)]
        return defs[0].value if len(defs) == len(stores) == 1 else name

    def branch(self, test, pos):
        test = self.spelled_out(test)
        k = constant_truth(test)
        if k is not None and k != pos:
            return None
        v = value(test, self.st.facts)
        if v is not None and v != pos:
            return None
        st = self.st.copy()
        st.learn(literals(test, pos))
        return None if contradictory(st.facts) else st

    def s_If(self, s):
        self.ex(s.test)
        a = self.branch(s.test, True)
        b = self.branch(s.test, False)
        self.st = a
        if a is not None:
            self.block(s.body)
        a = self.st
        self.st = b
        if b is not None:
            self.block(s.orelse)
        self.st = join(a, self.st)
        if a is not None and (self.first_iteration(s.test)
                              or self.done_once(s)):
            # later iterations still have what the first one assigned
            self.st.must |= a.must

    def done_once(self, s):
        """if x is None: ...; x = ...   where x is None to begin with and is
        set nowhere else: where x is not None the body has been run."""
        t, k = s.test, None
        neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)
        t = t.operand if neg else t
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.ops[0], ast.Is) and isinstance(
                    t.comparators[0], ast.Constant) and not neg:
            t, k = t.left, (t.comparators[0].value,)
        elif isinstance(t, ast.Name):
            k = (False, None) if neg else (True,)
        if not isinstance(t, ast.Name) or t.id not in self.locals or k is \
                None or s.orelse:
            return False
        inside = {id(n) for b in s.body for n in ast.walk(b)}
        before = [n for n in ast.walk(self.fn) if isinstance(n, ast.Name)
                  and n.id == t.id and not isinstance(n.ctx, ast.Load)
                  and id(n) not in inside]
        starts = [n for n in ast.walk(self.fn) if isinstance(n, ast.Assign)
                  and any(x is y for x in n.targets for y in before)]
        args = self.fn.args
        return bool(before) and len(starts) == len(before) and all(
            isinstance(n.value, ast.Constant) and any(
                n.value.value is v for v in k)
            for n in starts) and not any(
                x.arg == t.id for x in args.posonlyargs + args.args
                + args.kwonlyargs)

    def first_iteration(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return isinstance(t.operand, ast.Name) and \
                t.operand.id in self.counters
        return isinstance(t, ast.Compare) and isinstance(
            t.ops[0], ast.Eq) and isinstance(t.left, ast.Name) and \
            t.left.id in self.counters and isinstance(
                t.comparators[0], ast.Constant) and \
            t.comparators[0].value == 0

    def loop(self, s, head):
        b0, c0 = self.brk, self.cont
        self.brk, self.cont = [], []
        head()
        first = self.st
        # facts about what the body changes do not survive an iteration
        for n in ast.walk(s):
            c = self.cell(n) if isinstance(
                getattr(n, "ctx", None), ast.Store) else None
            if c is not None:
                m = c in first.must
                first.kill(c)
                if m:
                    first.must.add(c)
        self.block(s.body)
        for x in self.cont:
            self.st = join(self.st, x)
        end = self.st
        if end is not None and isinstance(s, ast.For):
            # what an iteration assigns under a test of the loop variable is
            # taken to be assigned by some iteration
            loopvars = {n.id for n in ast.walk(s.target)
                        if isinstance(n, ast.Name)}
            for c, alts in end.cond.items():
                if any(mentions(t, v) for a in alts for t, _ in a
                       for v in loopvars):
                    end.must.add(c)
        if end is not None and isinstance(s, ast.While):
            if constant_truth(s.test) is True:
                end = None
        self.st = end
        if self.st is not None:
            self.block(s.orelse)
        for x in self.brk:
            self.st = join(self.st, x)
        self.brk, self.cont = b0, c0

    def constants(self, it):
        """Constant elements of what a loop runs over, if they are known."""
        if isinstance(it, ast.Name):
            defs = [n for n in ast.walk(self.fn) if isinstance(n, ast.Assign)
                    and any(isinstance(t, ast.Name) and t.id == it.id
                            for t in n.targets)]
            stores = [n for n in ast.walk(self.fn) if isinstance(n, ast.Name)
                      and n.id == it.id and not isinstance(n.ctx, ast.Load)]
            if len(defs) != 1 or len(stores) != 1:
                return None
            it = defs[0].value
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                and it.func.attr == "keys" and not it.args:
            return self.constants(it.func.value)
        es = it.keys if isinstance(it, ast.Dict) else it.elts if isinstance(
            it, (ast.List, ast.Tuple, ast.Set)) else None
        if es and len(es) <= 6 and all(isinstance(x, ast.Constant)
                                       for x in es):
            return [x.value for x in es]
        return None

    def s_For(self, s):
        self.ex(s.iter)
        cs, t, it = None, s.target, s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                and it.func.attr == "items" and not it.args and isinstance(
                    t, ast.Tuple) and len(t.elts) == 2:
            # over the keys and values of a dictionary display
            t, it = t.elts[0], it.func.value
        if isinstance(t, ast.Name) and not s.orelse and not any(
                isinstance(n, (ast.Break, ast.For, ast.While))
                for b in s.body for n in ast.walk(b)):
            cs = self.constants(it)
        if cs is not None:
            c0 = self.cont
            for c in cs:
                if self.st is None:
                    break
                self.cont = []
                self.target(s.target)
                if isinstance(c, str):
                    self.st.learn({(f"{t.id} == {c!r}", True)})
                for b in s.body:
                    if self.st is None:
                        break
                    b = Put(t.id, c).visit(copy.deepcopy(b))
                    self.stmt(ast.fix_missing_locations(b))
                for x in self.cont:
                    self.st = join(self.st, x)
            self.cont = c0
            return
        self.loop(s, lambda: self.target(s.target))

    def s_While(self, s):
        def head():
            self.ex(s.test)
        self.loop(s, head)

    def s_Break(self, s):
        self.brk.append(self.st)
        self.st = None

    def s_Continue(self, s):
        self.cont.append(self.st)
        self.st = None

    def s_Return(self, s):
        if s.value is not None:
            self.ex(s.value)
        self.ret = join(self.ret, self.st)
        self.st = None

    def s_Raise(self, s):
        for e in (s.exc, s.cause):
            if e is not None:
                self.ex(e)
        self.st = None

    def s_With(self, s):
        for i in s.items:
            self.ex(i.context_expr)
            if i.optional_vars is not None:
                self.target(i.optional_vars)
        self.block(s.body)

    def s_Try(self, s):
        start = self.st.copy()
        self.block(s.body)
        mid = self.st
        if self.st is not None:
            self.block(s.orelse)
        out = self.st
        for h in s.handlers:
            self.st = start.copy()
            # what the body may have changed is not known
            for b in s.body:
                for n in ast.walk(b):
                    c = self.cell(n) if isinstance(
                        getattr(n, "ctx", None), ast.Store) else None
                    if c is not None:
                        m = c in self.st.must
                        self.st.kill(c)
                        if m:
                            self.st.must.add(c)
            if h.type is not None:
                self.ex(h.type)
            if h.name:
                self.st.assign(h.name)
            self.block(h.body)
            out = join(out, self.st)
        self.st = out
        if s.finalbody:
            if self.st is None:
                self.st = start.copy()
                self.block(s.finalbody)
                self.st = None
            else:
                self.block(s.finalbody)
        del mid

    def s_Assert(self, s):
        self.ex(s.test)
        self.st.learn(literals(s.test, True))

    def s_FunctionDef(self, s):
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
            self.ex(d)
        self.st.assign(s.name)

    def s_ClassDef(self, s):
        self.st.assign(s.name)

    def s_Import(self, s):
        for a in s.names:
            self.st.assign(a.asname or a.name.split(".")[0])

    s_ImportFrom = s_Import

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Pass = s_Global

    # ----------------------------------------------------------- expressions
    def ex(self, e):
        if self.st is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals:
                self.read(e.id, e)
            return
        if isinstance(e, ast.Attribute):
            c = self.cell(e)
            if c is not None:
                self.read(c, e)
            else:
                self.ex(e.value)
            return
        if isinstance(e, ast.BoolOp):
            saved = set(self.st.facts)
            pos = isinstance(e.op, ast.And)
            for v in e.values:
                self.ex(v)
                if self.st is None:
                    return
                self.st.learn(literals(v, pos))
                if contradictory(self.st.facts):
                    break
            self.st.facts = saved
            return
        if isinstance(e, ast.IfExp):
            self.ex(e.test)
            base = self.st
            a, b = self.branch(e.test, True), self.branch(e.test, False)
            self.st = a
            if a is not None:
                self.ex(e.body)
            a, self.st = self.st, b
            if b is not None:
                self.ex(e.orelse)
            self.st = join(a, self.st) or base
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            saved = set(self.st.facts)
            bound = set()
            for g in e.generators:
                old = self.locals
                self.locals = self.locals - bound
                self.ex(g.iter)
                self.locals = old
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        bound.add(n.id)
                hide = bound & self.locals
                old = self.locals
                self.locals = self.locals - hide
                for c in g.ifs:
                    self.ex(c)
                    self.st.learn(literals(c, True))
                self.locals = old
            old = self.locals
            self.locals = self.locals - bound
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp)
                      else [e.elt]):
                self.ex(x)
            self.locals = old
            self.st.facts = saved
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults:
                self.ex(d)
            return
        if isinstance(e, ast.NamedExpr):
            self.ex(e.value)
            self.target(e.target)
            return
        if isinstance(e, ast.Call):
            self.ex_call(e)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ex(c)
            elif isinstance(c, ast.FormattedValue):
                self.ex(c.value)

    def ex_call(self, e):
        if not (isinstance(e.func, ast.Attribute)
                and self.cell(e.func) is not None):
            self.ex(e.func)
        for a in e.args:
            self.ex(a)
        for k in e.keywords:
            self.ex(k.value)
        self.called(e)


def local_names(fn):
    """Names bound in the body of fn (not in nested scopes)."""
    out = set()
    glob = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)

    def scan(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef,
                              ast.AsyncFunctionDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                              ast.DictComp)):
                for x in ast.walk(c):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                continue
            if isinstance(c, ast.Name) and not isinstance(c.ctx, ast.Load):
                out.add(c.id)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for x in c.names:
                    out.add(x.asname or x.name.split(".")[0])
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                glob.update(c.names)
            scan(c)
    if not isinstance(fn, ast.Lambda):
        for s in fn.body:
            scan(ast.Module([s], []))
    return out - glob


def unbound_locals(fn, outer=frozenset()):
    w = Walk(fn)
    st = St()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        st.must.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            st.must.add(x.arg)
    w.run(st)
    return w.reports, w.locals


class AttrWalk(Walk):
    """Definite assignment of the attributes of self, calls of methods of the
    same object being followed."""
    NAMES = re.compile(r"(?<![\w.])(?!self\b|True\b|False\b|None\b|is\b|in\b"
                        r"|not\b|and\b|or\b|len\b|hasattr\b|isinstance\b)"
                        r"[A-Za-z_]\w*")

    def __init__(self, fi, ci, top):
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        super().__init__(fi.node, ps[0] if ps else None)
        self.fi, self.ci, self.top = fi, ci, top
        self.locals = set()     # only attributes are followed here
        self.params = ps[1:] + [x.arg for x in a.kwonlyargs]
        d = dict(zip(reversed([x.arg for x in a.posonlyargs + a.args]),
                     reversed(a.defaults)))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults)
                  if v is not None})
        self.defaults = d

    def cell(self, t):
        if isinstance(t, ast.Attribute) and isinstance(
                t.value, ast.Name) and t.value.id == self.me:
            return "self." + t.attr
        return None

    def target(self, t):
        super().target(t)
        if self.st is None:
            return
        if self.cell(t):
            self.top.assigned.add(self.cell(t))
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                self.st.kill(n.id)

    def read(self, cell, node):
        name = cell[5:]
        if name.startswith("__") or self.st.has(cell) or self.ci.find(
                name) or self.ci.find_const(name):
            return
        for q in ("'", '"'):
            if (f"hasattr(self, {q}{name}{q})", True) in self.st.facts:
                return
        if not any(mentions(t, v) for t, _ in self.st.facts
                   for v in self.loopvars):
            self.top.found.append((cell, node, self.fi,
                                   list(self.top.path)))
        self.st.must.add(cell)      # once is enough

    def called(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "setattr" and e.args and \
                isinstance(e.args[0], ast.Name) and e.args[0].id == self.me:
            n = e.args[1] if len(e.args) > 1 else None
            if isinstance(n, ast.Constant):
                self.st.assign("self." + str(n.value))
                self.top.assigned.add("self." + str(n.value))
            else:
                pat = ".*"
                if isinstance(n, ast.JoinedStr):
                    pat = "".join(re.escape(str(v.value)) if isinstance(
                        v, ast.Constant) else ".*" for v in n.values)
                for c in self.top.cells:
                    if re.fullmatch(pat, c[5:]) and (
                            pat != ".*" or c[5:] in self.top.strings or any(
                                re.fullmatch(q, c[5:])
                                for q in self.top.patterns)):
                        self.st.must.add(c)
                        self.top.assigned.add(c)
            return
        if isinstance(f, ast.Name) and f.id == "getattr" and \
                len(e.args) == 2 and isinstance(e.args[0], ast.Name) and \
                e.args[0].id == self.me and isinstance(
                    e.args[1], ast.Constant):
            self.read("self." + str(e.args[1].value), e)
            return
        if not isinstance(f, ast.Attribute):
            return
        t = None
        if isinstance(f.value, ast.Name) and f.value.id == self.me:
            t = self.ci.find(f.attr)
        elif isinstance(f.value, ast.Call) and isinstance(
                f.value.func, ast.Name) and f.value.func.id == "super" and \
                self.fi.cls is not None:
            t = self.ci.find(f.attr, self.fi.cls)
        if t is not None and self.st is not None:
            self.follow(t, e)

    def follow(self, t, e):
        top = self.top
        if any(x is t for x in top.path) or len(top.path) > 12:
            return
        w = AttrWalk(t, self.ci, top)
        st = self.st.copy()
        given = dict(zip(w.params, e.args))
        given.update({k.arg: k.value for k in e.keywords if k.arg})
        here = {f for f in st.facts if not local_text(f[0])}
        st.facts = set(here)
        for p in w.params:
            v = given.get(p, w.defaults.get(p))
            if isinstance(v, ast.Constant):
                if v.value is None or isinstance(v.value, bool):
                    st.facts |= {(f"{p} is None", v.value is None),
                                 (p, bool(v.value))}
                elif isinstance(v.value, str):
                    st.facts.add((f"{p} == {v.value!r}", True))
        top.path.append(t)
        out = w.run(st)
        top.path.pop()
        if out is None:
            self.st = None
            return
        old = self.st.facts
        out.cond = {c: k for c, k in ((c, frozenset(
            a for a in alts if all(not local_text(x[0])
                                   for x in a)))
            for c, alts in out.cond.items()) if k}
        for c, alts in self.st.cond.items():
            if c not in out.must:
                out.cond[c] = out.cond.get(c, frozenset()) | alts
        now = {f for f in out.facts if not local_text(f[0])}
        out.facts = {f for f in old if f in now or local_text(f[0])} | now
        self.st = out


STRINGS = re.compile(r"'[^']*'|\"[^\"]*\"")
LOCAL = {}


def local_text(t):
    """Does the test mention anything but attributes of self?"""
    r = LOCAL.get(t)
    if r is None:
        r = LOCAL[t] = AttrWalk.NAMES.search(STRINGS.sub("", t)) is not None
    return r


def all_strings(repo):
    r = repo.__dict__.get("_rule_strings")
    if r is None:
        r = repo.__dict__["_rule_strings"] = {
            n.value for m in repo.modules.values() for n in ast.walk(m.tree)
            if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        pats = set()
        for m in repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.JoinedStr):
                    lit = "".join(v.value for v in n.values if isinstance(
                        v, ast.Constant))
                    if len(lit) > 3 and re.fullmatch(r"\w+", lit):
                        pats.add("".join(re.escape(v.value) if isinstance(
                            v, ast.Constant) else r"\w+" for v in n.values))
        repo.__dict__["_rule_patterns"] = pats
    return r


class Top:
    def __init__(self, cells):
        self.cells, self.found, self.path = cells, [], []
        self.assigned, self.strings, self.patterns = set(), set(), set()


def attribute_cells(repo, ci):
    from . import effects
    memo = repo.__dict__.setdefault("_rule_cells", {})
    fam = effects.family(repo, ci)
    key = frozenset(id(c) for c in fam)
    if key in memo:
        return memo[key]
    out = memo[key] = set()
    for c in fam:
        for m in c.methods.values():
            me = [x.arg for x in m.node.args.posonlyargs + m.node.args.args]
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and me and n.value.id == me[0]:
                    out.add("self." + n.attr)
    return out


def sequence(repo, ci, first):
    """Reads of unassigned attributes when the methods named in first are
    called in this order and then any other method."""
    top = Top(attribute_cells(repo, ci))
    top.strings = all_strings(repo)
    top.patterns = repo.__dict__["_rule_patterns"]
    st = St()
    for c in ci.mro():
        for n, _ in c.fields:
            st.must.add("self." + n)
    for name in first:
        fi = ci.find(name)
        if fi is None:
            continue
        out = one_call(top, ci, fi, st)
        if out is None:
            return top.found, None, top.assigned
        st = out
    return top.found, st, top.assigned


def one_call(top, ci, fi, st):
    top.path = [fi]
    st = st.copy()
    st.facts = {f for f in st.facts if not local_text(f[0])}
    out = AttrWalk(fi, ci, top).run(st)
    if out is None:
        return None
    out.facts = {f for f in out.facts if not local_text(f[0])}
    out.cond = {c: k for c, k in ((c, frozenset(
        a for a in alts if all(not local_text(x[0]) for x in a)))
        for c, alts in out.cond.items()) if k}
    return out


def afterwards(repo, ci, assigned, skip):
    """Reads of unassigned attributes in any public method called on an
    object on which every attribute of a measurement has been set."""
    for name in sorted({n for c in ci.mro() for n in c.methods}):
        if name in skip or name.startswith("_"):
            continue
        top = Top(attribute_cells(repo, ci))
        top.strings = all_strings(repo)
        top.patterns = repo.__dict__["_rule_patterns"]
        one_call(top, ci, ci.find(name), St(assigned))
        for f in top.found:
            yield f
