"""Inference of physical units and of behaviour under a shift of time.

Every value term of a function gets
* a unit: a product of powers of base units (a vector of exponents), and
* a weight: by how many times the shift its value moves when the origin of
  time is moved (1 for times, 0 for everything else).

Both are linear unknowns; adding, comparing, interpolating, ... give linear
equations, solved by elimination as they are met.  An equation that cannot
hold is a violation: the value, or the decision, depends on the units or on
the origin chosen.
"""
from fractions import Fraction
from . import terms as tm
from .terms import is_num, is_bool, walk

ONE = ("1",)


# ------------------------------------------------------------ linear forms
def ladd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        n = r.get(x, 0) + c * k
        if n:
            r[x] = n
        else:
            r.pop(x, None)
    return r


def lscale(a, k):
    return {x: c * k for x, c in a.items()} if k else {}


def unknown(x):
    return isinstance(x, tuple) and x[0] == "?"


class Solver:
    def __init__(self):
        self.sub = {}
        self.n = 0
        self.trail = None

    def fresh(self):
        self.n += 1
        return {("?", self.n): Fraction(1)}

    def norm(self, a):
        while True:
            for x in a:
                if x in self.sub:
                    break
            else:
                return a
            c = a[x]
            a = dict(a)
            del a[x]
            a = ladd(a, self.sub[x], c)

    def zero(self, a):
        """Require a == 0; False if that is impossible."""
        a = self.norm(a)
        if not a:
            return True
        for x in sorted((x for x in a if unknown(x)), reverse=True):
            c = a[x]
            b = dict(a)
            del b[x]
            self.sub[x] = lscale(b, Fraction(-1) / c)
            if self.trail is not None:
                self.trail.append(x)
            return True
        return False

    def could(self, eqs):
        """Require all equations, or none if they contradict each other."""
        old, self.trail = self.trail, []
        ok = all(self.zero(e) for e in eqs)
        if not ok:
            for x in self.trail:
                del self.sub[x]
        elif old is not None:
            old += self.trail
        self.trail = old
        return ok


# ------------------------------------------------------------------ values
class Q:
    """A quantity (number or array of them)."""
    __slots__ = ("e", "w", "zero")

    def __init__(self, e, w, zero=False):
        self.e, self.w, self.zero = e, w, zero


class Tup:
    def __init__(self, items):
        self.items = items


class Fn:
    """Function of one quantity."""

    def __init__(self, arg, ret):
        self.arg, self.ret = arg, ret


class Obj:
    """Anything else; becomes a quantity if used as one."""

    def __init__(self):
        self.q = None


class Other:
    """None, texts, missing values: compatible with everything."""


OTHER = Other()


# -------------------------------------------------------------- type texts
class Types:
    """Reads type texts such as 'T@', '1/T', 'a@>b', '(T@, 1/T)'.

    Upper case letters are base units, lower case ones are type variables;
    '@' marks values that move with the origin of time (for variables, with
    their own origin).
    """

    def __init__(self, sv, rigid=None):
        self.sv, self.rigid = sv, rigid
        self.vars = {}

    def unit(self, u):
        if u in ("", "1"):
            return {}
        r, sign = {}, 1
        for part in u.replace("*", " * ").replace("/", " / ").split():
            if part == "*":
                sign = 1
            elif part == "/":
                sign = -1
            elif part != "1":
                b, _, p = part.partition("^")
                k = Fraction(p) if p else Fraction(1)
                r = ladd(r, self.base(b), k * sign)
        return r

    def base(self, b):
        if b[0].islower():
            if self.rigid is not None:
                return {("unit", self.rigid + "." + b): Fraction(1)}
            if b not in self.vars:
                self.vars[b] = self.sv.fresh()
            return self.vars[b]
        return {("unit", b): Fraction(1)}

    def make(self, s):
        s = s.strip()
        if s in ("?", ""):
            return Obj()
        if s == "_":
            return OTHER
        if s[0] == "(" and s[-1] == ")":
            return Tup([self.make(x) for x in s[1:-1].split(",")])
        if ">" in s:
            a, r = s.split(">")
            return Fn(self.make(a), self.make(r))
        u, at, org = s.partition("@")
        w = {}
        if at:
            if u[0].islower():
                if self.rigid is not None:
                    w = {("origin", self.rigid + "." + u): Fraction(1)}
                else:
                    k = u + "@"
                    if k not in self.vars:
                        self.vars[k] = self.sv.fresh()
                    w = self.vars[k]
            else:
                w = {("origin", u + org): Fraction(1)}
        return Q(self.unit(u), w)


class Conflict:
    def __init__(self, kind, text, term):
        self.kind, self.text, self.term = kind, text, term


class Infer:
    """Unit inference over the value terms of one function."""

    def __init__(self, tables, name, params, self_family=None):
        self.tb = tables
        self.sv = Solver()
        self.name = name
        self.params = params        # symbol name -> value
        self.fam = self_family
        self.conf = []
        self.split = []             # conditions deciding between units
        self.closed = {}
        self.open = {}
        self.free = {}
        self.done = set()
        self.count = 0
        self.opaque = {}

    # -------------------------------------------------------------- helpers
    def fresh(self):
        return Q(self.sv.fresh(), self.sv.fresh())

    def plain(self):
        return Q({}, {})

    def quant(self, v):
        if isinstance(v, Q):
            return v
        if isinstance(v, Obj):
            if v.q is None:
                v.q = self.fresh()
            return v.q
        if isinstance(v, Tup):
            q = None
            for x in v.items:
                if isinstance(x, Other):
                    continue
                x = self.quant(x)
                if q is None or q.zero:
                    q = x
                elif not x.zero and not self.soft(q, x):
                    return Q(self.sv.fresh(), self.sv.fresh())
            return q or self.fresh()
        return self.fresh()

    def bad(self, kind, text, term):
        k = (kind, term.id if term is not None else text)
        if k not in self.done:
            self.done.add(k)
            self.conf.append(Conflict(kind, text, term))

    def text(self, a):
        a = self.sv.norm(a)
        if not a:
            return "1"
        out = []
        for x, c in sorted(a.items(), key=str):
            n = "unknown" if unknown(x) else x[1] if len(x) == 2 else \
                x[1] + "^e"
            out.append(n if c == 1 else f"{n}^{c}")
        return "*".join(out)

    def same(self, a, b, term, what):
        a, b = self.quant(a), self.quant(b)
        self.count += 1
        if not self.sv.zero(ladd(a.e, b.e, -1)):
            self.bad("units", f"{what}: units {self.text(a.e)} against "
                     f"{self.text(b.e)}", term)
        if not self.sv.zero(ladd(a.w, b.w, -1)):
            self.bad("origin", f"{what}: one side moves with the origin of "
                     "time, the other does not", term)

    def soft(self, a, b):
        a, b = self.quant(a), self.quant(b)
        return self.sv.could([ladd(a.e, b.e, -1), ladd(a.w, b.w, -1)])

    def pure(self, a, term, what):
        """a is dimensionless and does not move."""
        a = self.quant(a)
        self.count += 1
        if not self.sv.zero(a.e):
            self.bad("units", f"{what}: not dimensionless "
                     f"({self.text(a.e)})", term)
        self.still(a, term, what)

    def still(self, a, term, what):
        a = self.quant(a)
        if not self.sv.zero(a.w):
            self.bad("origin", f"{what}: depends on the origin of time",
                     term)

    def join(self, a, b, term, what="alternative values"):
        """Value that may be a or b."""
        if isinstance(a, Other):
            return b
        if isinstance(b, Other):
            return a
        if a is b:
            return a
        if isinstance(a, Fn) and isinstance(b, Fn):
            return Fn(self.join(a.arg, b.arg, term, what),
                      self.join(a.ret, b.ret, term, what))
        if isinstance(a, Tup) and isinstance(b, Tup) and \
                len(a.items) == len(b.items):
            return Tup([self.join(x, y, term, what) for x, y in
                        zip(a.items, b.items)])
        if isinstance(a, (Fn, Tup)) or isinstance(b, (Fn, Tup)):
            if isinstance(a, Tup) and isinstance(b, Q):
                a = self.quant(a)
            elif isinstance(b, Tup) and isinstance(a, Q):
                b = self.quant(b)
            else:
                return Obj()
        if isinstance(a, Obj) and a.q is None:
            return b if isinstance(b, Q) else a
        if isinstance(b, Obj) and b.q is None:
            return a
        a, b = self.quant(a), self.quant(b)
        if a.zero:
            return b
        if b.zero:
            return a
        if self.soft(a, b):
            return a
        if what is None:
            # either of two kinds, as a condition has it: to be told apart
            self.split.append(term.args[0])
        else:
            self.same(a, b, term, what)
        return Obj()

    # ----------------------------------------------------------- evaluation
    def bvs(self, t):
        r = self.free.get(t.id)
        if r is None:
            if t.op == "bv":
                r = frozenset((t.id,))
            elif not t.args:
                r = frozenset()
            else:
                r = frozenset().union(*(self.bvs(a) for a in t.args))
            self.free[t.id] = r
        return r

    def ev(self, t, env=None):
        env = env or {}
        if t.op == "const":
            return self.const(t)
        fb = self.bvs(t)
        if fb:
            k = (t.id,) + tuple((b, id(env.get(b))) for b in sorted(fb))
            memo = self.open
        else:
            k, memo = t.id, self.closed
        r = memo.get(k)
        if r is None:
            f = getattr(self, "o_" + t.op, None)
            r = f(t, env) if f else self.other(t, env)
            memo[k] = r
            # keep environment values alive: their identity is the key
            memo.setdefault(("keep", k), tuple(env.values()))
        return r

    def other(self, t, env):
        self.opaque[t.op] = self.opaque.get(t.op, 0) + 1
        for a in t.args:
            self.ev(a, env)
        return Obj()

    def const(self, t):
        if is_num(t):
            if t.data[1] == 0 or abs(t.data[1]) >= 1e50:
                # zero, and stand-ins for infinity
                q = self.fresh()
                q.zero = True
                return q
            return self.plain()
        if t.data[0] == "bool":
            return self.plain()
        return OTHER

    def o_sym(self, t, env):
        n = t.data
        if n in ("pi", "1j"):
            return self.plain()
        if n.startswith("float:"):
            q = self.fresh()
            q.zero = True
            return q
        v = self.params.get(n)
        if v is None:
            v = self.params[n] = Obj()
        return v

    def o_absent(self, t, env):
        return OTHER

    o_undef = o_keyerror = o_missingarg = o_fstr = o_extref = o_pyobj = \
        o_unboundname = o_missingattr = o_indexerror = o_absent

    def o_bv(self, t, env):
        return env.get(t.id) or self.plain()

    def o_idx(self, t, env):
        return self.plain()

    def o_paren(self, t, env):
        return self.ev(t.args[0], env)

    def o_ite(self, t, env):
        self.cond(t.args[0], env)
        a = self.ev(t.args[1], env)
        b = self.ev(t.args[2], env)
        if is_bool(t):
            return self.plain()
        return self.join(a, b, t, None)

    def cond(self, a, env):
        self.ev(a, env)

    def o_lt0(self, t, env):
        q = self.quant(self.ev(t.args[0], env))
        self.count += 1
        self.still(q, t, "comparison")
        return self.plain()

    o_eq0 = o_lt0

    def o_eq(self, t, env):
        a, b = (self.ev(x, env) for x in t.args)
        if isinstance(a, Other) or isinstance(b, Other):
            return self.plain()
        if isinstance(a, Q) and isinstance(b, Q):
            self.same(a, b, t, "comparison")
        return self.plain()

    def o_truth(self, t, env):
        self.ev(t.args[0], env)
        return self.plain()

    o_isnone = o_in = o_truth

    def o_in(self, t, env):
        for x in t.args:
            self.ev(x, env)
        return self.plain()

    # arithmetic
    def o_rat(self, t, env):
        at = {a.id: self.quant(self.ev(a, env)) for a in t.args}
        num, den = t.data
        e = self.poly_unit(num, at, t)
        for k, p in den:
            e = ladd(e, self.poly_unit(k, at, t), -p)
        return Q(e, self.weight(num, den, at, t))

    def poly_unit(self, p, at, t):
        first = None
        for m, c in p:
            if not m and abs(c) >= 1e50:
                continue
            e = {}
            for a, x in m:
                if a in at:
                    e = ladd(e, at[a].e, x)
            if first is None:
                first = e
                continue
            self.count += 1
            if not self.sv.zero(ladd(first, e, -1)):
                self.bad("units", "sum of terms with units "
                         f"{self.text(first)} and {self.text(e)}", t)
        return first or {}

    def weight(self, num, den, at, t):
        ws = {a: self.sv.norm(q.w) for a, q in at.items()}
        ws = {a: w for a, w in ws.items() if w}
        if not ws:
            return {}
        d = self.deriv(num, ws)
        for k, _ in den:
            for m, w in self.deriv(k, ws).items():
                if not self.sv.zero(w):
                    self.bad("origin", "the denominator depends on the "
                             "origin of time", t)
                    return {}
        # D(num) = k * den
        prod = {(): Fraction(1)}
        for k, p in den:
            for _ in range(int(p)):
                prod = tm._pmul(prod, dict(k))
        if not den:
            k = d.pop((), {})
            rest = d
        else:
            m0 = next(iter(prod))
            k = lscale(d.get(m0, {}), Fraction(1) / prod[m0])
            rest = dict(d)
            for m, c in prod.items():
                rest[m] = ladd(rest.get(m, {}), k, -c)
        for m, w in rest.items():
            if not self.sv.zero(w):
                self.bad("origin", "the value depends on the origin of time",
                         t)
                return {}
        return k

    def deriv(self, poly, ws):
        """{monomial: linear form} of the derivative along the shift."""
        r = {}
        for m, c in poly:
            for i, (a, x) in enumerate(m):
                if a not in ws:
                    continue
                mm = list(m)
                if x == 1:
                    del mm[i]
                else:
                    mm[i] = (a, x - 1)
                mm = tuple(mm)
                r[mm] = ladd(r.get(mm, {}), ws[a], c * x)
        return r

    def o_pow(self, t, env):
        a = self.quant(self.ev(t.args[0], env))
        b = self.ev(t.args[1], env)
        self.pure(b, t, "exponent")
        self.still(a, t, "power")
        e = self.sv.norm(a.e)
        if not e:
            return self.plain()
        x = t.args[1]
        if is_num(x):
            return Q(lscale(a.e, Fraction(x.data[1])), {})
        if any(unknown(u) for u in e):
            return Obj()
        sg = 1
        if x.op == "rat" and x.data[0] and x.data[0][0][1] < 0:
            x, sg = tm.neg(x), -1
        return Q({("powered", u[1] if len(u) == 2 else str(u),
                   x.id): c * sg for u, c in e.items()}, {})

    # containers
    def o_tuple(self, t, env):
        return Tup([self.ev(a, env) for a in t.args])

    o_list = o_tuple

    def o_set(self, t, env):
        for a in t.args:
            self.ev(a, env)
        return Obj()

    def o_dict(self, t, env):
        for a in t.args:
            self.ev(a, env)
        for i in range(1, len(t.args) - 1, 2):
            self.keyed(t.args[i], t.args[i + 1], env, t)
        return Obj()

    def keyed(self, k, v, env, t):
        """Stored under a documented name."""
        s = self.tb.key(k)
        if s is None:
            return
        want = Types(self.sv).make(s)
        got = self.ev(v, env)
        self.agree(got, want, t, f"value stored as {tm.show(k, 3)}")

    def agree(self, got, want, t, what):
        if isinstance(want, (Obj, Other)) or isinstance(got, (Other,)):
            return
        if isinstance(want, Fn):
            if isinstance(got, Fn):
                self.agree(got.arg, want.arg, t, what)
                self.agree(got.ret, want.ret, t, what)
            return
        if isinstance(want, Tup):
            if isinstance(got, Tup) and len(got.items) == len(want.items):
                for x, y in zip(got.items, want.items):
                    self.agree(x, y, t, what)
            return
        if isinstance(got, Fn) or isinstance(got, Obj) and got.q is None:
            if isinstance(got, Obj):
                got.q = want
            return
        self.same(got, want, t, what)

    def o_dstore(self, t, env):
        b = self.ev(t.args[0], env)
        self.ev(t.args[1], env)
        v = self.ev(t.args[2], env)
        s = self.tb.key(t.args[1])
        if s is not None:
            self.keyed(t.args[1], t.args[2], env, t)
            return Obj()
        if isinstance(b, Q) and isinstance(v, Q):
            return self.join(b, v, t, "stored value")
        return b if isinstance(b, Q) else v if isinstance(v, Q) and \
            t.args[0].op == "absent" else Obj()

    def o_dunion(self, t, env):
        a, b = (self.ev(x, env) for x in t.args)
        return self.join(a, b, t)

    def binder(self, t, env, elem):
        e = dict(env)
        e[tm.mk("bv", (), t.data if not isinstance(t.data, tuple)
                else t.data[1]).id] = elem
        return e

    def o_collect(self, t, env):
        self.ev(t.args[0], env)
        e = self.binder(t, env, self.plain())
        self.ev(t.args[1], e)
        return self.ev(t.args[2], e)

    def o_dcollect(self, t, env):
        self.ev(t.args[0], env)
        e = self.binder(t, env, self.plain())
        self.ev(t.args[1], e)
        self.ev(t.args[2], e)
        return self.ev(t.args[3], e)

    def o_flat(self, t, env):
        self.ev(t.args[0], env)
        return self.ev(t.args[1], self.binder(t, env, self.plain()))

    o_each = o_flat

    def o_first(self, t, env):
        return self.o_collect(t, env)

    def o_any(self, t, env):
        self.o_flat(t, env)
        return self.plain()

    def o_sum(self, t, env):
        q = self.quant(self.o_flat(t, env))
        self.still(q, t, "sum over a loop")
        return Q(q.e, {})

    def o_concat(self, t, env):
        vs = [self.ev(a, env) for a in t.args]
        r = None
        for v in vs:
            if isinstance(v, Tup):
                if not v.items:
                    continue
                if all(isinstance(x, Q) for x in v.items):
                    v = self.quant(v)
                else:
                    return Obj()
            if isinstance(v, Obj) and v.q is None:
                return Obj()
            r = v if r is None else self.join(r, v, t, "joined values")
        return r or Obj()

    def o_repeat(self, t, env):
        vs = [self.ev(a, env) for a in t.args]
        return vs[0]

    def o_lambda(self, t, env):
        # parameters of callbacks are unknown
        e = dict(env)
        n, lvl = t.data if isinstance(t.data, tuple) else (1, t.data)
        ps = []
        for i in range(max(n, 1)):
            v = Obj()
            e[tm.mk("bv", (), lvl + i).id] = v
            ps.append(v)
        r = self.ev(t.args[0], e)
        if n == 1 and isinstance(r, (Q, Obj)):
            return Fn(ps[0], r)
        return Obj()

    def o_range(self, t, env):
        for a in t.args:
            self.pure(self.ev(a, env), t, "range")
        return self.plain()

    def o_whereidx(self, t, env):
        self.ev(t.args[0], env)
        return self.plain()

    def o_wheretuple(self, t, env):
        self.ev(t.args[0], env)
        return Tup([self.plain()])

    # loops
    def o_loop(self, t, env):
        self.loop(t, env)
        return Obj()

    def loop(self, t, env):
        """(environment of the body, values carried)."""
        k = ("loop", t.id) + tuple((b, id(env.get(b)))
                                   for b in sorted(self.bvs(t)))
        r = self.open.get(k)
        if r is not None:
            return r
        n, lvl = t.data
        self.ev(t.args[0], env)
        ins = [self.ev(a, env) for a in t.args[1:1 + n]]
        e = dict(env)
        e[tm.mk("bv", (), lvl).id] = self.plain()
        slots = []
        for j, v in enumerate(ins):
            s = Obj()
            if isinstance(v, Q) and not v.zero and not is_num(t.args[1 + j]):
                s = v
            elif isinstance(v, (Fn, Tup)) and not (isinstance(v, Tup) and
                                                   not v.items):
                s = v
            slots.append(s)
            e[tm.mk("bv", (), lvl + 1 + j).id] = s
        self.open[k] = r = (e, slots)
        self.open[("keep", k)] = tuple(env.values())
        body = t.args[1 + n:]
        self.ev(body[0], e)
        self.ev(body[1], e)
        out = []
        for j, x in enumerate(body[2:2 + n]):
            v = self.ev(x, e)
            s = slots[j]
            out.append(self.join(s, v, x, "value carried by a loop"))
        for j, v in enumerate(ins):
            if isinstance(v, Q) and isinstance(out[j], (Q, Obj)):
                out[j] = self.join(v, out[j], t.args[1 + j],
                                   "value carried by a loop")
        r = self.open[k] = (e, out)
        return r

    def o_loopout(self, t, env):
        lp = t.args[0]
        e, out = self.loop(lp, env)
        if t.data < 0 or t.data >= len(out):
            return Obj()
        return out[t.data]

    def extras(self, t, env):
        lo = t.args[0]
        lp = lo.args[0] if lo.op == "loopout" else lo
        e, out = self.loop(lp, env)
        n = lp.data[0]
        return [self.ev(x, e) for x in lp.args[1 + n + 2 + n:]]

    def o_loopany(self, t, env):
        self.extras(t, env)
        return self.plain()

    def o_loopfirst(self, t, env):
        x = self.extras(t, env)
        return x[-1] if x else Obj()

    def o_eachloop(self, t, env):
        x = self.extras(t, env)
        return Obj()

    # access
    def o_index(self, t, env):
        c, k = t.args
        s = self.tb.key(k)
        v = self.ev(c, env)
        if s is not None:
            return Types(self.sv).make(s)
        kv = self.ev(k, env)
        if isinstance(v, Tup) and is_num(k) and \
                -len(v.items) <= k.data[1] < len(v.items):
            return v.items[int(k.data[1])]
        if k.op == "const" and k.data[0] == "str":
            return Obj()
        if k.op == "fstr":
            return Obj()
        if isinstance(v, Tup):
            return self.quant(v) if all(
                isinstance(x, Q) for x in v.items) and v.items else Obj()
        if isinstance(v, Q):
            return v
        return Obj()

    def o_slice(self, t, env):
        for a in t.args:
            if a.op not in ("const", "sym") or is_num(a):
                v = self.ev(a, env)
                if isinstance(v, Q):
                    self.pure(v, t, "position")
        return self.plain()

    def o_attr(self, t, env):
        v = self.ev(t.args[0], env)
        s = self.tb.attr(t.args[0], t.data, self.fam)
        if s is not None:
            return Types(self.sv, rigid=self.tb.scope).make(s)
        if t.data in ("T", "real", "imag", "flat", "values"):
            return v
        if t.data in ("size", "ndim", "shape"):
            return self.plain()
        return Obj()

    def o_post(self, t, env):
        """Attribute of the object a method was called on, afterwards."""
        x = t.args[0]
        self.ev(x, env)
        while x.op == "ite":
            x = x.args[1]
        if x.op == "call" and len(x.args) > len(x.data[1]):
            me = x.args[0]
        elif x.op == "call" and x.args:
            me = x.args[0]
        else:
            return Obj()
        s = self.tb.attr(me, t.data, self.fam)
        if s is not None:
            return Types(self.sv, rigid=self.tb.scope).make(s)
        return Obj()

    def o_instof(self, t, env):
        return Obj()

    def o_fmt(self, t, env):
        self.ev(t.args[0], env)
        return OTHER

    # calls
    def callsig(self, f):
        """(types of the parameters in order, type of the result) of a
        callable term, if declared."""
        s = self.tb.callsig(f)
        if s is None:
            return None
        ty = Types(self.sv)
        return [ty.make(p) for p in s[0].values()], ty.make(s[1])

    def o_starred(self, t, env):
        return self.ev(t.args[0], env)

    def o_apply(self, t, env):
        vs = [self.ev(a, env) for a in t.args]
        f = vs[0]
        s = self.callsig(t.args[0])
        if s is not None:
            got = []
            for a, v in zip(t.args[1:], vs[1:]):
                if a.op == "starred":
                    if not isinstance(v, Tup):
                        break
                    got += v.items
                else:
                    got.append(v)
            for j, (v, w) in enumerate(zip(got, s[0])):
                self.agree(v, w, t, f"argument {j + 1} of the fit")
            return s[1]
        if isinstance(f, Fn) and len(vs) > 1:
            self.agree(vs[1], f.arg, t, "argument of a fitted or "
                       "interpolating function")
            return f.ret
        return Obj()

    def o_call(self, t, env):
        head, kw = t.data
        n = len(t.args) - len(kw)
        args = [self.ev(a, env) for a in t.args[:n]]
        kws = {k: self.ev(a, env) for k, a in zip(kw, t.args[n:])}
        terms = dict(zip(kw, t.args[n:]))
        if head[:2] in ("fn", "m:") or head.startswith("cls:"):
            sig = self.tb.sig(head)
            if sig is None:
                return Obj()
            ps, ret = sig
            ty = Types(self.sv)
            for p, v in kws.items():
                if p in ps and not isinstance(v, Other):
                    self.agree(v, ty.make(ps[p]), t,
                               f"argument {p} of {head.split(':')[1]}")
            return ty.make(ret)
        h = self.tb.lib.get(head)
        if h is None:
            self.opaque[head] = self.opaque.get(head, 0) + 1
            return Obj()
        return h(self, t, args, kws, terms)

    def o_meth(self, t, env):
        name, kw = t.data
        n = len(t.args) - len(kw)
        vs = [self.ev(a, env) for a in t.args[:n]]
        kws = {k: self.ev(a, env) for k, a in zip(kw, t.args[n:])}
        s = self.tb.attr(t.args[0], name, self.fam)
        if s is not None and ">" in s:
            f = Types(self.sv).make(s)
            if len(vs) > 1:
                self.agree(vs[1], f.arg, t, f"argument of {name}")
            return f.ret
        h = self.tb.methods.get(name)
        if h is None:
            self.opaque["." + name] = self.opaque.get("." + name, 0) + 1
            return Obj()
        return h(self, t, vs, kws, dict(zip(kw, t.args[n:])))


# ----------------------------------------------- meaning of library functions
def first(i, t, a, k, x):
    return a[0] if a else Obj()


def still_first(i, t, a, k, x):
    q = i.quant(a[0])
    i.still(q, t, t.data[0])
    return Q(q.e, {})


def delta(i, t, a, k, x):
    q = i.quant(a[0])
    return Q(q.e, {})


def number(i, t, a, k, x):
    return i.plain()


def pure_arg(i, t, a, k, x):
    for v in a:
        if isinstance(v, (Q, Obj, Tup)):
            i.pure(v, t, "argument of " + t.data[0])
    return i.plain()


def alike(i, t, a, k, x):
    """All arguments have the units of the result."""
    r = None
    for v in a:
        if isinstance(v, Tup):
            v = i.quant(v)
        if isinstance(v, Other):
            continue
        r = v if r is None else i.join(r, v, t, "arguments of " + t.data[0])
    return r or Obj()


def sign(i, t, a, k, x):
    i.still(a[0], t, "sign")
    return i.plain()


def angle(i, t, a, k, x):
    for v in a:
        i.still(v, t, t.data[0])
    if len(a) == 2:
        i.same(a[0], a[1], t, "arguments of " + t.data[0])
    return i.plain()


def near(i, t, a, k, x):
    """numpy.allclose(a, b): b sets the scale, atol is absolute."""
    b = a[1] if len(a) > 1 else k.get("b")
    i.same(a[0], b, t, "arguments of " + t.data[0])
    i.still(a[0], t, t.data[0])
    at = x.get("atol")
    if at is None and len(t.args) - len(t.data[1]) > 3:
        at = t.args[3]
    if at is None:
        q = i.quant(a[0])
        if not i.sv.zero(q.e):
            i.bad("units", "default absolute tolerance of "
                  f"{t.data[0]} against units {i.text(q.e)}", t)
    elif not (is_num(at) and at.data[1] == 0):
        v = k.get("atol") or a[3]
        q, w = i.quant(v), i.quant(a[0])
        if not i.sv.zero(ladd(q.e, w.e, -1)):
            i.bad("units", "absolute tolerance", t)
    return i.plain()


def sorted_in(i, t, a, k, x):
    i.same(a[0], a[1], t, "arguments of " + t.data[0])
    return i.plain()


def interp(i, t, a, k, x):
    i.same(a[0], a[1], t, "abscissae of " + t.data[0])
    return a[2]


def spline(i, t, a, k, x):
    if len(a) < 2:
        return Obj()
    return Fn(i.quant(a[0]), i.quant(a[1]))


def grid(i, t, a, k, x):
    if len(a) == 1:
        i.pure(a[0], t, "arange")
        return i.plain()
    r = i.join(a[0], a[1], t, "limits of arange")
    if len(a) > 2:
        s = i.quant(a[2])
        i.still(s, t, "step of arange")
        r = i.quant(r)
        if not i.sv.zero(ladd(r.e, s.e, -1)):
            i.bad("units", "step of arange", t)
    return r


def linspace(i, t, a, k, x):
    return i.join(a[0], a[1], t, "limits of linspace")


def where(i, t, a, k, x):
    if len(a) == 3:
        return i.join(a[1], a[2], t, "alternatives of where")
    return Tup([i.plain()])


def zeros(i, t, a, k, x):
    q = i.fresh()
    q.zero = True
    return q


def full(i, t, a, k, x):
    return a[1] if len(a) > 1 else k.get("fill_value") or Obj()


def product(i, t, a, k, x):
    if any(isinstance(v, Obj) and v.q is None for v in a[:2]):
        return Obj()
    p, q = i.quant(a[0]), i.quant(a[1])
    i.still(p, t, "product")
    i.still(q, t, "product")
    return Q(ladd(p.e, q.e), {})


def gradient(i, t, a, k, x):
    q = i.quant(a[0])
    if len(a) < 2:
        return Q(q.e, {})
    d = i.quant(a[1])
    return Q(ladd(q.e, d.e, -1), {})


def integral(i, t, a, k, x):
    q = i.quant(a[0])
    i.still(q, t, "integrand")
    if len(a) < 2:
        return Q(q.e, {})
    d = i.quant(a[1])
    return Q(ladd(q.e, d.e), {})


def root(p):
    def f(i, t, a, k, x):
        q = i.quant(a[0])
        i.still(q, t, t.data[0])
        return Q(lscale(q.e, Fraction(p)), {})
    return f


def peaks(i, t, a, k, x):
    q = i.quant(a[0])
    i.still(q, t, "find_peaks")
    for n in ("distance", "width", "wlen", "plateau_size"):
        if n in k and not isinstance(k[n], Other):
            i.pure(k[n], t, n + " of find_peaks (in samples)")
    for n in ("height", "prominence", "threshold"):
        if n in k and not isinstance(k[n], Other):
            p = i.quant(k[n])
            if not i.sv.zero(ladd(p.e, q.e, -1)):
                i.bad("units", n + " of find_peaks", t)
            i.still(p, t, n)
    return Tup([i.plain(), Obj()])


def freqs(i, t, a, k, x):
    d = a[1] if len(a) > 1 else k.get("d")
    if d is None:
        return i.plain()
    d = i.quant(d)
    i.still(d, t, "sample spacing")
    return Q(lscale(d.e, Fraction(-1)), {})


def same_still(i, t, a, k, x):
    r = i.quant(a[0])
    i.still(r, t, t.data[0])
    return Q(r.e, {})


def pair(i, t, a, k, x):
    v = i.quant(a[0])
    return v


def fitted(i, t, a, k, x):
    """curve_fit(f, x, y, p0, bounds=) and least_squares(f, p0, bounds=)."""
    curve = t.data[0].endswith("curve_fit")
    f = t.args[0]
    p0 = k.get("p0" if curve else "x0")
    if p0 is None and len(a) > (3 if curve else 1):
        p0 = a[3 if curve else 1]
    vecs = [("initial guess", p0)]
    b = k.get("bounds")
    if isinstance(b, Tup) and len(b.items) == 2:
        vecs += [("lower bound", b.items[0]), ("upper bound", b.items[1])]
    s = i.callsig(f)
    want = None
    if s is not None:
        ps, ret = s
        if curve:
            want = Tup(ps[1:])
            data = list(zip(a[1:3], [ps[0], ret]))
        else:
            want = ps[0]
            g = k.get("args")
            data = list(zip(g.items, ps[1:])) if isinstance(g, Tup) else []
        for v, w in data:
            i.agree(v, w, t, "data of the fit")
    elif curve and isinstance(a[0], Fn):
        i.agree(a[1], a[0].arg, t, "data of the fit")
        i.agree(a[2], a[0].ret, t, "data of the fit")
    for what, v in vecs:
        if isinstance(v, Tup):
            if not isinstance(want, Tup):
                want = v
            if len(v.items) == len(want.items):
                for j, (g, w) in enumerate(zip(v.items, want.items)):
                    i.agree(g, w, t, f"{what} of fit parameter {j + 1}")
    if curve:
        return Tup([want or p0 or Obj(), Obj()])
    return Obj()


LIB = {
    "scipy.optimize.curve_fit": fitted,
    "scipy.optimize.least_squares": fitted,
    "len": number, "int": pure_arg, "float": first, "complex": first,
    "bool": number, "isinstance": number, "hasattr": number, "str": number,
    "type": number, "round": pure_arg, "round1": pure_arg,
    "floordiv": None, "mod": None, "countif": number, "id": number,
    "max": alike, "min": alike, "abs": still_first, "sorted": first,
    "sum": still_first, "list": first, "tuple": first, "reversed": first,
    "copy.copy": first, "copy.deepcopy": first,
    "numpy.array": first, "numpy.asarray": first, "numpy.atleast_1d": first,
    "numpy.copy": first, "numpy.squeeze": first, "numpy.ravel": first,
    "numpy.sort": first, "numpy.unique": first, "numpy.flip": first,
    "numpy.max": first, "numpy.min": first, "numpy.mean": first,
    "numpy.median": first, "numpy.amax": first, "numpy.amin": first,
    "numpy.nanmax": first, "numpy.nanmin": first, "numpy.nanmean": first,
    "numpy.transpose": first, "numpy.roll": first, "numpy.pad": first,
    "numpy.take": first, "numpy.compress": first, "numpy.percentile": first,
    "numpy.column_stack": first, "numpy.hstack": first,
    "numpy.vstack": first, "numpy.concatenate": first, "numpy.tile": first,
    "numpy.append": alike, "numpy.insert": None, "numpy.delete": first,
    "numpy.maximum": alike, "numpy.minimum": alike,
    "numpy.fmax": alike, "numpy.fmin": alike,
    "numpy.clip": alike, "numpy.abs": still_first,
    "numpy.absolute": still_first, "numpy.fabs": still_first,
    "numpy.real": still_first, "numpy.imag": still_first,
    "numpy.conj": still_first, "numpy.conjugate": still_first,
    "numpy.sum": still_first, "numpy.cumsum": still_first,
    "numpy.std": delta, "numpy.ptp": delta, "numpy.diff": delta,
    "numpy.ediff1d": delta, "numpy.var": None,
    "numpy.argmin": number, "numpy.argmax": number, "numpy.argsort": number,
    "numpy.nanargmin": number, "numpy.nanargmax": number,
    "numpy.nonzero": number, "numpy.flatnonzero": number,
    "numpy.count_nonzero": number, "numpy.any": number, "numpy.all": number,
    "numpy.isnan": number, "numpy.isfinite": number, "numpy.isinf": number,
    "numpy.ndim": number, "numpy.shape": number, "numpy.size": number,
    "numpy.logical_and": number, "numpy.logical_or": number,
    "numpy.logical_not": number, "numpy.isin": sorted_in,
    "numpy.in1d": sorted_in, "numpy.array_equal": sorted_in,
    "numpy.sign": sign, "numpy.signbit": sign, "numpy.angle": angle,
    "numpy.unwrap": first, "numpy.arctan2": angle,
    "numpy.allclose": near, "numpy.isclose": near, "math.isclose": near,
    "numpy.searchsorted": sorted_in, "numpy.digitize": sorted_in,
    "numpy.interp": interp, "numpy.arange": grid,
    "numpy.linspace": linspace, "numpy.where": where,
    "numpy.zeros": zeros, "numpy.zeros_like": zeros, "numpy.empty": zeros,
    "numpy.empty_like": zeros, "numpy.ones": number,
    "numpy.ones_like": number, "numpy.full": full, "numpy.full_like": full,
    "numpy.dot": product, "numpy.matmul": product, "numpy.outer": product,
    "numpy.vdot": product, "numpy.multiply": product,
    "numpy.gradient": gradient, "numpy.trapz": integral,
    "scipy.integrate.cumulative_trapezoid": integral,
    "scipy.integrate.cumtrapz": integral,
    "numpy.linalg.norm": same_still, "numpy.sqrt": root("1/2"),
    "numpy.cbrt": root("1/3"), "numpy.square": root("2"),
    "scipy.signal.find_peaks": peaks,
    "numpy.fft.rfft": same_still, "numpy.fft.irfft": same_still,
    "numpy.fft.fft": same_still, "numpy.fft.ifft": same_still,
    "numpy.fft.rfftfreq": freqs, "numpy.fft.fftfreq": freqs,
    "numpy.hanning": number, "numpy.hamming": number,
    "scipy.interpolate.InterpolatedUnivariateSpline": spline,
    "scipy.interpolate.UnivariateSpline": spline,
    "scipy.interpolate.CubicSpline": spline,
    "scipy.interpolate.PchipInterpolator": spline,
    "scipy.interpolate.interp1d": spline,
    "numpy.polynomial.polynomial.Polynomial.fit": spline,
}
for _n in ("exp log log10 log2 log1p expm1 sin cos tan arcsin arccos arctan "
           "sinh cosh tanh arctanh ceil floor rint round radians degrees "
           "rad2deg deg2rad").split():
    LIB["numpy." + _n] = pure_arg
for _n in "exp log log10 sin cos tan asin acos atan ceil floor".split():
    LIB["math." + _n] = pure_arg


def floordiv(i, t, a, k, x):
    i.same(a[0], a[1], t, "integer division")
    i.still(a[0], t, "integer division")
    return i.plain()


def modulo(i, t, a, k, x):
    i.same(a[0], a[1], t, "remainder")
    i.still(a[0], t, "remainder")
    return a[0]


LIB["floordiv"] = floordiv
LIB["mod"] = LIB["numpy.mod"] = LIB["numpy.remainder"] = modulo
LIB = {k: v for k, v in LIB.items() if v is not None}


def deriv_method(i, t, a, k, x):
    f = a[0]
    n = x.get("n")
    if isinstance(f, Fn) and n is not None and is_num(n):
        p, r = i.quant(f.arg), i.quant(f.ret)
        return Fn(f.arg, Q(ladd(r.e, p.e, -n.data[1]), {}))
    return Obj()


METHODS = {
    "ravel": first, "copy": first, "flatten": first, "tolist": first,
    "astype": first, "transpose": first, "reshape": first, "squeeze": first,
    "max": first, "min": first, "mean": first, "sum": still_first,
    "cumsum": still_first, "std": delta, "dot": product, "ptp": delta,
    "argmax": number, "argmin": number, "argsort": number, "any": number,
    "all": number, "conj": still_first, "conjugate": still_first,
    "derivative": deriv_method, "keys": number, "item": first,
}
