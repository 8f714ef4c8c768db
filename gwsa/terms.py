"""Hash-consed value terms for the value-numbering analysis.

A term is an immutable node.  Two program expressions that the analysis can
show equal are represented by the *same* node (global value numbering):

* arithmetic is kept as a rational function in normal form (``rat``),
* booleans and gated (phi) values are kept as reduced ordered decision
  diagrams over condition atoms (``ite`` nodes),
* everything else is an uninterpreted application of a named head.

Nothing in this module runs or solves anything: terms are only rewritten to
normal form.
"""
from fractions import Fraction
from math import gcd
import hashlib
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "args", "data", "id", "_atoms", "flags")

    def __repr__(self):
        return show(self, 4)


_table = {}
_nodes = []


def mk(op, args=(), data=None):
    k = (op, tuple(a.id for a in args), data)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.data = op, tuple(args), data
        t.id = len(_nodes)
        t._atoms = None
        t.flags = None
        _nodes.append(t)
        _table[k] = t
    return t


def node(i):
    return _nodes[i]


_fp = {}
_LOCAL = ("mu", "idx", "ref", "pyobj")


def fingerprint(t):
    """Number that depends on the structure of the term only, not on the
    order in which terms were created."""
    r = _fp.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in _fp:
            st.pop()
            continue
        todo = [a for a in x.args if a.id not in _fp]
        if todo:
            st.extend(todo)
            continue
        d = "" if x.op in _LOCAL else _datakey(x)
        k = (x.op + "|" + d + "|").encode() + b"".join(
            f.to_bytes(8, "little") for f in (
                sorted(_fp[a.id] for a in x.args) if x.op == "rat"
                else (_fp[a.id] for a in x.args)))
        _fp[x.id] = int.from_bytes(hashlib.blake2b(
            k, digest_size=8).digest(), "little")
        st.pop()
    return _fp[t.id]


def _datakey(x):
    if x.op != "rat":
        return repr(x.data)
    # monomials name their atoms by number
    names = {a.id: _fp[a.id] for a in x.args}

    def mono(m):
        return sorted((names.get(i, i), str(e)) for i, e in m)

    def poly(p):
        return sorted((mono(m), str(c)) for m, c in p)
    return repr((poly(x.data[0]), sorted((poly(k), str(e))
                                         for k, e in x.data[1])))


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk("const", (), (type(v).__name__, v))
    if isinstance(v, (int, Fraction)):
        return mk("const", (), ("num", Fraction(v)))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("sym", (), "float:" + repr(v))
        return mk("const", (), ("num", Fraction(repr(v))))
    if v is Ellipsis:
        return mk("const", (), ("ellipsis", "..."))
    raise TypeError(type(v))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)
ABSENT = mk("absent")
UNDEF = mk("undef")


def sym(name):
    return mk("sym", (), name)


PI = sym("pi")
IMAG = sym("1j")


def is_const(t):
    return t.op == "const"


def is_num(t):
    return t.op == "const" and t.data[0] == "num"


def is_str(t):
    return t.op == "const" and t.data[0] == "str"


def num(t):
    return t.data[1]


def pyval(t):
    """Python value of a constant."""
    if t.data[0] == "num":
        f = t.data[1]
        return int(f) if f.denominator == 1 else f
    return t.data[1]


def opaque(reason):
    return mk("opaque", (), reason)


# -------------------------------------------------------------- ite (MTBDD)
def ite_node(atom, hi, lo):
    if hi is lo:
        return hi
    if hi.op == "dstore" and atom.op == "call" and \
            atom.data[0] == "numpy.any" and hi.args[0] is lo and \
            hi.args[1] is atom.args[0]:
        # storing at the places of an empty mask stores nothing
        return hi
    return mk("ite", (atom, hi, lo))


def top(t):
    return t.args[0] if t.op == "ite" else None


_BINC = {}


class TooLarge(Exception):
    """A condition diagram outgrew what a comparison may spend on it."""


EFFORT = [None]


def _spend():
    EFFORT[0] -= 1
    if EFFORT[0] < 0:
        EFFORT[0] = None
        raise TooLarge


def _cof(t, a):
    if t.op == "ite" and t.args[0] is a:
        return t.args[1], t.args[2]
    return t, t


def ite(c, a, b):
    """If-then-else with condition diagram c (terminals TRUE/FALSE)."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = ("ite", c.id, a.id, b.id)
    r = _BINC.get(k)
    if r is not None:
        return r
    if c.op != "ite":
        raise ValueError(f"not a condition: {c!r}")
    if EFFORT[0] is not None:
        _spend()
    v = min((x.args[0] for x in (c, a, b) if x.op == "ite"),
            key=lambda x: x.id)
    c1, c0 = _cof(c, v)
    a1, a0 = _cof(a, v)
    b1, b0 = _cof(b, v)
    r = ite_node(v, ite(c1, a1, b1), ite(c0, a0, b0))
    _BINC[k] = r
    return r


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def ball(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def bany(xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def atom(t):
    """The diagram of a single condition atom."""
    return ite_node(t, TRUE, FALSE)


def leaves(t, _seen=None):
    if t.op != "ite":
        return [t]
    out, seen, st = [], set(), [t]
    lv = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            st.append(x.args[1])
            st.append(x.args[2])
        elif x.id not in lv:
            lv.add(x.id)
            out.append(x)
    return out


def is_bool(t):
    """Is t a condition diagram?"""
    return all(x is TRUE or x is FALSE for x in leaves(t))


def map_leaves(f, t, memo=None):
    if t.op != "ite":
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        h = map_leaves(f, t.args[1], memo)
        lo = map_leaves(f, t.args[2], memo)
        r = ite(atom(t.args[0]), h, lo)
        memo[t.id] = r
    return r


def constrain(f, c):
    """Generalised cofactor: canonical representative of f on care set c."""
    if c is FALSE:
        return UNDEF
    if c is TRUE or f.op != "ite":
        return f
    k = ("con", f.id, c.id)
    r = _BINC.get(k)
    if r is not None:
        return r
    if EFFORT[0] is not None:
        _spend()
    v = min((x.args[0] for x in (c, f) if x.op == "ite"), key=lambda x: x.id)
    c1, c0 = _cof(c, v)
    f1, f0 = _cof(f, v)
    if c1 is FALSE:
        r = constrain(f0, c0)
    elif c0 is FALSE:
        r = constrain(f1, c1)
    else:
        r = ite_node(v, constrain(f1, c1), constrain(f0, c0))
    _BINC[k] = r
    return r


def bdd_atoms(t, acc=None):
    """Condition atoms on which the diagram depends (top level only)."""
    if acc is None:
        acc = {}
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen or x.op != "ite":
            continue
        seen.add(x.id)
        acc[x.args[0].id] = x.args[0]
        st.append(x.args[1])
        st.append(x.args[2])
    return acc


def bdd_size(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen or x.op != "ite":
            continue
        seen.add(x.id)
        st.append(x.args[1])
        st.append(x.args[2])
    return len(seen)


# ----------------------------------------------------------- rational terms
# poly: dict {monomial: Fraction}; monomial: tuple of (atom id, Fraction exp)
def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, c = _mmul(m1, m2)
            c = c * c1 * c2
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    c = Fraction(1)
    im = d.get(IMAG.id)
    if im is not None and im.denominator == 1:
        k = int(im) % 4
        if k in (2, 3):
            c = -c
        if k in (1, 3):
            d[IMAG.id] = Fraction(1)
        else:
            del d[IMAG.id]
    return tuple(sorted((a, e) for a, e in d.items() if e)), c


def _padd(p, q):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def _pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def _mono_div(m, d):
    """m/d allowing only non-negative remaining exponents; None if not."""
    dm = dict(m)
    for a, e in d:
        x = dm.get(a, 0) - e
        if x < 0:
            return None
        dm[a] = x
    return tuple(sorted((a, e) for a, e in dm.items() if e))


def _lead(p):
    # graded lexicographic order
    return max(p, key=lambda m: (sum(e for _, e in m),
                                 tuple((-a, e) for a, e in m)))


def _pdivexact(p, q):
    """Exact quotient p/q of polynomials or None."""
    if not q:
        return None
    if len(p) > 60 or len(q) > 30:
        return None
    neg = {}
    for m in p:
        for a, e in m:
            if e < 0 and e < neg.get(a, 0):
                neg[a] = e
    if neg:
        # clear negative powers first
        sh = tuple(sorted((a, -e) for a, e in neg.items()))
        out = _pdivexact(_pmul({sh: Fraction(1)}, p), q)
        if out is None:
            return None
        return _pmul({tuple((a, -e) for a, e in sh): Fraction(1)}, out)
    lq = _lead(q)
    r, out = dict(p), {}
    n = 0
    while r:
        n += 1
        if n > 200:
            return None
        lr = _lead(r)
        m = _mono_div(lr, lq)
        if m is None:
            return None
        c = r[lr] / q[lq]
        out[m] = c
        r = _padd(r, _pscale(_pmul({m: Fraction(1)}, q), -c))
    return out


def _content(p):
    """Normalise: return (coef, monomial gcd, primitive poly)."""
    lc = p[_lead(p)]
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        common = {a: min(e, d.get(a, Fraction(0)))
                  for a, e in common.items()}
        # negative exponents elsewhere are handled by min with 0 below
        for a, e in d.items():
            if a not in common and e < 0:
                common[a] = e
    common = tuple(sorted((a, e) for a, e in common.items() if e))
    inv = tuple((a, -e) for a, e in common)
    q = {}
    for m, c in p.items():
        mm, k = _mmul(m, inv)
        q[mm] = c * k / lc
    return lc, common, q


def _poly_key(p):
    return tuple(sorted(p.items()))


def mkrat(n, den=()):
    """n: poly dict; den: dict {primitive poly key: exponent}."""
    den = dict(den)
    if not n:
        return ZERO
    for k in list(den):
        while k in den:
            q = _pdivexact(n, dict(k))
            if q is None:
                break
            n = q
            den[k] -= 1
            if not den[k]:
                del den[k]
    if not den:
        if len(n) == 1:
            (m, c), = n.items()
            if not m:
                return const(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return node(m[0][0])
    ids = set()
    for m in n:
        ids.update(a for a, _ in m)
    for k in den:
        for m, _ in k:
            ids.update(a for a, _ in m)
    return mk("rat", tuple(node(i) for i in sorted(ids)),
              (_poly_key(n), tuple(sorted(den.items()))))


def as_rat(t):
    if t.op == "rat":
        return dict(t.data[0]), dict(t.data[1])
    if is_num(t):
        return ({(): num(t)} if num(t) else {}), {}
    if t is TRUE:
        return {(): Fraction(1)}, {}
    if t is FALSE:
        return {}, {}
    return {((t.id, Fraction(1)),): Fraction(1)}, {}


_LIM = 400


def _dist2(f, a, b):
    """Apply binary f over gated values."""
    va = a.op == "ite" and not is_bool(a)
    vb = b.op == "ite" and not is_bool(b)
    if va:
        return map_leaves(lambda x: _dist2(f, x, b), a)
    if vb:
        return map_leaves(lambda y: f(a, y), b)
    return f(a, b)


def add(a, b):
    return _dist2(_add, a, b)


def _add(a, b):
    n1, d1 = as_rat(a)
    n2, d2 = as_rat(b)
    if not n1:
        return b if b.op != "ite" else b
    if not n2:
        return a
    den = {}
    for k in set(d1) | set(d2):
        den[k] = max(d1.get(k, 0), d2.get(k, 0))
    for n, d in ((0, d1), (1, d2)):
        for k, e in den.items():
            for _ in range(e - d.get(k, 0)):
                if n == 0:
                    n1 = _pmul(n1, dict(k))
                else:
                    n2 = _pmul(n2, dict(k))
    return mkrat(_padd(n1, n2), den)


def mul(a, b):
    return _dist2(_mul, a, b)


def _mul(a, b):
    n1, d1 = as_rat(a)
    n2, d2 = as_rat(b)
    den = dict(d1)
    for k, e in d2.items():
        den[k] = den.get(k, 0) + e
    if len(n1) * len(n2) > _LIM:
        return mk("bigmul", tuple(sorted((a, b), key=lambda x: x.id)))
    return mkrat(_pmul(n1, n2), den)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    if a.op == "ite" and not is_bool(a):
        return map_leaves(inv, a)
    n, d = as_rat(a)
    if not n:
        return mk("div0")
    num_ = {(): Fraction(1)}
    for k, e in d.items():
        for _ in range(e):
            num_ = _pmul(num_, dict(k))
    if len(n) == 1:
        (m, c), = n.items()
        m = tuple((x, -e) for x, e in m)
        m, s = _mmul(m, ())
        return mkrat({mm: v * s / c for mm, v in
                      _pmul(num_, {m: Fraction(1)}).items()})
    lc, com, prim = _content(n)
    icom = tuple((x, -e) for x, e in com)
    return mkrat(_pscale(_pmul(num_, {icom: Fraction(1)}), 1 / lc),
                 {_poly_key(prim): 1})


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    if (a.op == "ite" and not is_bool(a)) or (b.op == "ite"
                                              and not is_bool(b)):
        return _dist2(power, a, b)
    if is_num(b):
        e = num(b)
        n, d = as_rat(a)
        if e == 0:
            return ONE
        if e.denominator == 1 and abs(e) <= 6:
            r = ONE
            for _ in range(abs(int(e))):
                r = _mul(r, a)
            return inv(r) if e < 0 else r
        if not d and len(n) == 1:
            (m, c), = n.items()
            if c == 1 and len(m) == 1:
                return mkrat({((m[0][0], m[0][1] * e),): Fraction(1)})
            if c == 1:
                return mkrat({tuple((x, y * e) for x, y in m): Fraction(1)})
        if e.denominator == 2 and is_num(a):
            from math import isqrt
            f = num(a)
            if f > 0 and isqrt(f.numerator) ** 2 == f.numerator \
                    and isqrt(f.denominator) ** 2 == f.denominator:
                return power(const(Fraction(isqrt(f.numerator),
                                            isqrt(f.denominator))),
                             const(e * 2))
        if not is_int(a):
            # keep the base as an atom
            at = a if a.op != "rat" else mk("paren", (a,))
            return mkrat({((at.id, e),): Fraction(1)})
        at = mk("paren", (a,))
        return mkrat({((at.id, e),): Fraction(1)})
    return mk("pow", (a, b))


_INT_HEADS = {"len", "numpy.argmin", "numpy.argmax", "numpy.searchsorted",
              "int", "numpy.ndim", "round1", "hash", "countif"}


_COUNT = {}


def is_count(t, ok=frozenset()):
    """A number of things: a loop variable that starts as one and is only
    ever increased or set to one."""
    k = (t.id, ok)
    r = _COUNT.get(k)
    if r is None:
        r = _COUNT[k] = _is_count(t, ok)
    return r


def _is_count(t, ok):
    if t.op == "ite":
        return not is_bool(t) and all(is_count(x, ok) for x in leaves(t))
    if t.op == "const":
        return t.data[0] == "num" and t.data[1].denominator == 1 and \
            t.data[1] >= 0
    if t.op == "bv":
        return t.id in ok
    if t.op == "call":
        return t.data == ("len", ())
    if t.op == "rat":
        return not t.data[1] and all(
            c > 0 and c.denominator == 1 and all(
                e > 0 and e.denominator == 1 for _, e in m)
            for m, c in t.data[0]) and all(is_count(a, ok) for a in t.args)
    if t.op == "loopout" and t.data >= 0:
        loop = t.args[0]
        n, lvl = loop.data
        return is_count(loop.args[1 + t.data], ok) and is_count(
            loop.args[3 + n + t.data],
            ok | {mk("bv", (), lvl + 1 + t.data).id})
    return False


def is_find(t):
    """text.find("constant")"""
    return t.op == "meth" and t.data == ("find", ()) and len(
        t.args) == 2 and is_str(t.args[1])


def is_int(t):
    if t.op == "const":
        return t.data[0] == "num" and t.data[1].denominator == 1
    if t.op == "call":
        return t.data[0] in _INT_HEADS
    if t.op in ("idx",) or is_find(t):
        return True
    if t.op == "loopout":
        return is_count(t)
    if t.op == "index":
        return t.args[0].op == "whereidx"
    if t.op == "rat":
        if t.data[1]:
            return False
        for m, c in t.data[0]:
            if c.denominator != 1:
                return False
            if any(e < 0 or e.denominator != 1 for _, e in m):
                return False
        return all(is_int(a) for a in t.args)
    return False


# ----------------------------------------------------------------- booleans
def _num_like(t):
    return t.op == "rat" or is_num(t) or \
        t.op == "call" and t.data[0] == "len"


def lt(a, b):
    """a < b as a condition diagram."""
    if (a.op == "ite" and not is_bool(a)) or (b.op == "ite"
                                              and not is_bool(b)):
        return _dist2(lt, a, b)
    return lt0(_add(a, _mul(const(-1), b)))


def counts_zero(n, den):
    """Condition that a quotient of numbers of items is 0."""
    if den or len(n) != 1:
        return None
    (m, c), = n.items()
    if len(m) < 2 or any(node(a).op != "call" or node(a).data[0] != "len"
                         for a, _ in m):
        return None
    return bany(eq(node(a), ZERO) for a, k in m if k > 0)


def _without_pi(n):
    """A polynomial divided by the power of pi that all its terms have."""
    es = [next((e for a, e in m if a == PI.id), 0) for m in n]
    e = min(es, default=0)
    if not e:
        return n
    f = ((PI.id, -e),)
    return {_mmul(m, f)[0]: c for m, c in n.items()}


def plain_limit(n, m, x):
    """Is the extremum that of a parameter, and compared with a parameter or
    attribute?"""
    for q in n:
        if q == m:
            continue
        for a, _ in q:
            y = node(a)
            if y is PI:
                continue
            while y.op == "attr":
                y = y.args[0]
            if y.op != "sym" or contains(x, {a}):
                return False
    y = x.args[0]
    if y.op == "call" and len(y.args) == 1 and y.data[0] in (
            "numpy.atleast_1d", "numpy.asarray", "numpy.array"):
        y = y.args[0]
    return y.op == "sym"


def lt0(p):
    """p < 0."""
    if is_num(p):
        return TRUE if num(p) < 0 else FALSE
    n, d = as_rat(p)
    if not d:
        n2 = _without_pi(n)
        if n2 is not n:
            return lt0(mkrat(n2))
    z = counts_zero(n, d)
    if z is not None:
        return FALSE if next(iter(n.values())) > 0 else bnot(z)
    if d:
        # sign of a rational function: keep as is, normalised by scale
        cs = [abs(c) for c in n.values()]
        s = cs[0] if len(cs) == 1 else abs(n[_lead(n)])
        return atom(mk("lt0", (mkrat(_pscale(n, 1 / s), d),)))
    for m, c in n.items():
        ms = [f for f in m if f[0] != PI.id]
        if len(ms) == 1 and ms[0][1] == 1:
            x = node(ms[0][0])
            if x.op == "call" and x.data in (("min", ()), ("max", ())) and \
                    2 <= len(x.args) <= 4 and \
                    sum(x.id in [f[0] for f in q] for q in n) == 1:
                # an extremum of several: one of them, or each of them
                rest = mkrat({q: k for q, k in n.items() if q != m})
                f = mkrat({tuple(f for f in m if f[0] == PI.id): c})
                parts = [lt0(_add(rest, _mul(f, a))) for a in x.args]
                return bany(parts) if (c > 0) == (x.data[0] == "min") \
                    else ball(parts)
            if x.op == "call" and len(x.args) == 1 and x.data in (
                    ("numpy.min", ()), ("numpy.max", ())) and \
                    (sum(x.id in [f[0] for f in q] for q in n) == 1) and \
                    plain_limit(n, m, x):
                # the extremum of an array against a limit: its elements
                rest = mkrat({q: k for q, k in n.items() if q != m})
                f = mkrat({tuple(f for f in m if f[0] == PI.id): c})
                b = lt0(_add(rest, _mul(f, x.args[0])))
                every = (c > 0) == (x.data[0] == "numpy.max")
                if b is TRUE or b is FALSE:
                    continue
                r = atom(mk("call", (bnot(b) if every else b,),
                            ("numpy.any", ())))
                return bnot(r) if every else r
    isint = is_int(p)
    if isint:
        g = 0
        for m, c in n.items():
            if m:
                g = gcd(g, int(c))
        k = int(n.get((), 0))
        # sum g*x + k < 0  <=>  x + floor(k/g) < 0 with care: g*y < -k
        # y < -k/g  <=> y <= ceil(-k/g)-1 <=> y + (1-ceil(-k/g)) <= 0
        c = -((k) // g)  # ceil(-k/g) = -floor(k/g)
        q = {m: v / g for m, v in n.items() if m}
        # y < c ; canonical sign: leading coefficient positive or negative
        if len(q) == 1 and len(_lead(q)) == 1:
            # position of a text in another one, -1: not there
            (i, e), = _lead(q)
            if e == 1 and is_find(node(i)) and q[_lead(q)] in (1, -1):
                f = node(i)
                there = atom(mk("in", (f.args[1], f.args[0])))
                if q[_lead(q)] == 1 and c <= 0:
                    return bnot(there) if c == 0 else FALSE
                if q[_lead(q)] == -1 and c >= 1:
                    return there if c == 1 else TRUE
        if q[_lead(q)] > 0:
            if c:
                q[()] = Fraction(-c)
            return _lt_atom(mkrat(q))
        # -z < c  <=> z > -c <=> not (z <= -c) <=> not (z < -c+1)
        z = _pscale(q, -1)
        k2 = -c + 1
        if k2:
            z[()] = Fraction(-k2)
        return bnot(_lt_atom(mkrat(z)))
    lc = abs(n[_lead(n)])
    return _lt_atom(mkrat(_pscale(n, 1 / lc)))


_NONNEG = {"len", "numpy.abs", "countif"}


def _rounded_down(p):
    """z - k where p is floor(z) - k with an integer k: same sign."""
    k, x = ZERO, p
    if p.op == "rat" and not p.data[1]:
        d = dict(p.data[0])
        c = d.pop((), 0)
        if len(d) != 1 or Fraction(c).denominator != 1:
            return None
        (m, v), = d.items()
        if v != 1 or len(m) != 1 or m[0][1] != 1:
            return None
        k, x = const(c), node(m[0][0])
    if x.op != "call" or x.data[1]:
        return None
    if x.data[0] == "int" and len(x.args) == 1:
        from .lib import count_like
        z = x.args[0]
        if z.op == "rat" and not z.data[1]:
            # part of a number of items
            ds = [Fraction(c).denominator for _, c in z.data[0]]
            if count_like(mkrat(_pscale(dict(z.data[0]), max(ds)))):
                return _add(z, k)
    if x.data[0] == "floordiv" and is_num(x.args[1]) and \
            num(x.args[1]) > 0:
        return _add(_mul(x.args[0], const(1 / num(x.args[1]))), k)
    return None


def _lt_atom(p):
    if p.op == "call" and p.data[0] in _NONNEG:
        return FALSE
    if p.op == "idx" or p.op == "loopout" and is_count(p):
        return FALSE
    z = _rounded_down(p)
    if z is not None:
        return lt0(z)
    if p.op == "rat" and not p.data[1]:
        d = dict(p.data[0])
        if len(d) == 2 and d.get(()) == -1:
            # an empty selection: nothing satisfies its condition
            (m, c), = [x for x in d.items() if x[0]]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                x = node(m[0][0])
                if x.op == "call" and x.data[0] == "len" and \
                        len(x.args) == 1 and x.args[0].op == "collect" and \
                        x.args[0].args[1] is not TRUE:
                    from .lib import t_any
                    x = x.args[0]
                    return bnot(t_any(x.args[0], x.args[1], x.data))
                if x.op == "call" and len(x.args) == 1 and (
                        x.data[0] == "len" and x.args[0].op == "whereidx"
                        or x.data[0] == "countif"):
                    from .lib import n_any
                    x = x.args[0]
                    return bnot(n_any(x.args[0] if x.op == "whereidx"
                                      else x))
        # len(x) + c < 0 with c >= 0 ; len(x) < 0 - handled by all nonneg
        ok = True
        for m, c in p.data[0]:
            if c < 0 or any(not (node(a).op == "idx" or (
                    node(a).op == "call" and node(a).data[0] in _NONNEG))
                    for a, _ in m):
                ok = False
                break
        if ok:
            return FALSE
    return atom(mk("lt0", (p,)))


def le(a, b):
    return bnot(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if (a.op == "ite" and not is_bool(a)) or (b.op == "ite"
                                              and not is_bool(b)):
        return _dist2(eq, a, b)
    if a.op == "const" and b.op == "const":
        if a.data[0] == "num" and b.data[0] == "bool":
            b = const(int(b.data[1]))
        if b.data[0] == "num" and a.data[0] == "bool":
            a = const(int(a.data[1]))
        return TRUE if a is b else FALSE
    if is_bool(a) and is_bool(b):
        return bor(band(a, b), band(bnot(a), bnot(b)))
    for x, y in ((a, b), (b, a)):
        if x.op in ("tuple", "list") and y.op == x.op:
            if len(x.args) != len(y.args):
                return FALSE
            return ball(eq(p, q) for p, q in zip(x.args, y.args))
    if _num_like(a) or _num_like(b):
        d = _add(a, _mul(const(-1), b))
        if is_num(d):
            return TRUE if num(d) == 0 else FALSE
        if is_int(d):
            return band(bnot(lt0(d)), bnot(lt0(_mul(const(-1), d))))
        n, den = as_rat(d)
        if not den:
            n2 = _without_pi(n)
            if n2 is not n:
                return eq(mkrat(n2), ZERO)
        z = counts_zero(n, den)
        if z is not None:
            return z
        lc = n[_lead(n)]
        return atom(mk("eq0", (mkrat(_pscale(n, 1 / lc)),)))
    x, y = sorted((a, b), key=lambda z: z.id)
    return atom(mk("eq", (x, y)))


def isnone(a):
    if a.op == "ite" and not is_bool(a):
        return map_leaves(isnone, a)
    if a is NONE:
        return TRUE
    if a.op in ("const", "rat", "tuple", "list", "dict", "ref", "fstr",
                "pyobj", "collect", "slice", "ite", "whereidx"):
        return FALSE
    if a.op == "call" and (a.data[0] in _NOTNONE or
                           a.data[0].startswith(("numpy.", "scipy."))):
        return FALSE
    if a.op == "meth" and a.data[0] in _TEXT_METHODS:
        return FALSE
    if a.op in ("dstore", "concat", "range", "lambda", "fnref", "boundref",
                "partial", "sum", "inst", "set", "setof"):
        return FALSE
    if a.op == "index" and (
            a.args[1].op == "slice" or is_bool(a.args[1]) or
            a.args[1].op == "call" and a.args[1].data[0] in (
                "numpy.argmin", "numpy.argmax", "numpy.searchsorted") or
            a.args[0].op == "call" and a.args[0].data[0].startswith(
                "numpy.")):
        # part of an array
        return FALSE
    return atom(mk("isnone", (a,)))


_TEXT_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "split",
                 "rsplit", "splitlines", "format", "startswith", "endswith",
                 "join", "partition", "rpartition", "title", "to_dict",
                 "tolist", "conj", "conjugate", "astype", "keys"}

_NOTNONE = {"len", "numpy.abs", "numpy.diff", "numpy.argmin", "numpy.argmax",
            "numpy.array", "numpy.min", "numpy.max", "min", "max",
            "numpy.arange", "numpy.unwrap", "numpy.atleast_1d"}


# --------------------------------------------------------------- rebuilding
def walk(t, seen=None):
    """All nodes reachable from t."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)
        if x.op == "rat":
            pass


_REB = {}


def register_rebuild(op, f):
    _REB[op] = f


def subst(t, m, memo=None):
    """Replace nodes (id -> node) everywhere, renormalising."""
    if not m:
        return t
    memo = {} if memo is None else memo
    return _subst(t, m, memo)


def _contains(t, ids, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    r = t.id in ids or any(_contains(a, ids, memo) for a in t.args)
    memo[t.id] = r
    return r


def contains(t, ids):
    return _contains(t, set(ids), {})


def _subst(t, m, memo):
    r = m.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if not t.args:
        return t
    if t.op == "ite":
        a = _subst_atom(t.args[0], m, memo)
        r = ite(a, _subst(t.args[1], m, memo), _subst(t.args[2], m, memo))
    elif t.op == "rat":
        new = {a.id: _subst(a, m, memo) for a in t.args}
        if all(k == v.id for k, v in new.items()):
            r = t
        else:
            def ev(poly):
                s = ZERO
                for mono, c in poly:
                    x = const(c)
                    for a, e in mono:
                        x = mul(x, power(new[a], const(e)))
                    s = add(s, x)
                return s
            r = ev(t.data[0])
            for k, e in t.data[1]:
                r = mul(r, power(inv(ev(k)), const(e)))
    else:
        na = tuple(_subst(a, m, memo) for a in t.args)
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        else:
            f = _REB.get(t.op)
            r = f(t, na) if f else mk(t.op, na, t.data)
    memo[t.id] = r
    return r


def _subst_atom(a, m, memo):
    """Substitute inside a condition atom; returns a diagram."""
    r = m.get(a.id)
    if r is not None:
        return r
    na = tuple(_subst(x, m, memo) for x in a.args)
    if all(x is y for x, y in zip(na, a.args)):
        return atom(a)
    if a.op == "lt0":
        return map_leaves(lt0, na[0]) if na[0].op == "ite" else lt0(na[0])
    if a.op == "eq0":
        return eq(na[0], ZERO)
    if a.op == "eq":
        return eq(na[0], na[1])
    if a.op == "isnone":
        return isnone(na[0])
    f = _REB.get("atom:" + a.op)
    if f:
        return f(a, na)
    return atom(mk(a.op, na, a.data))


# ------------------------------------------------------------------ display
def show(t, depth=6):
    if depth <= 0:
        return "…"
    d = depth - 1
    o = t.op
    if o == "const":
        if t.data[0] == "num":
            f = t.data[1]
            if f.denominator == 1:
                return str(f.numerator)
            return repr(float(f))
        return repr(t.data[1])
    if o == "sym":
        return str(t.data)
    if o == "ref":
        return f"<obj {t.data}>"
    if o == "absent":
        return "<absent>"
    if o == "rat":
        def poly(p):
            out = []
            for m, c in p:
                f = []
                for a, e in m:
                    s = show(node(a), d)
                    if e != 1:
                        s += f"**{e}" if e.denominator == 1 else f"**({e})"
                    f.append(s)
                cs = str(c.numerator) if c.denominator == 1 else \
                    (f"{float(c):.6g}")
                if not f:
                    out.append(cs)
                elif c == 1:
                    out.append("*".join(f))
                elif c == -1:
                    out.append("-" + "*".join(f))
                else:
                    out.append(cs + "*" + "*".join(f))
            return " + ".join(out)
        s = poly(t.data[0])
        if len(t.data[0]) > 1:
            s = "(" + s + ")"
        for k, e in t.data[1]:
            s += f"/({poly(k)})" + (f"**{e}" if e != 1 else "")
        return s
    if o == "ite":
        if t.args[1] is TRUE and t.args[2] is FALSE:
            return "[" + show(t.args[0], d) + "]"
        if t.args[1] is FALSE and t.args[2] is TRUE:
            return "[not " + show(t.args[0], d) + "]"
        return (f"({show(t.args[0], d)} ? {show(t.args[1], d)} : "
                f"{show(t.args[2], d)})")
    if o == "lt0":
        return show(t.args[0], d) + " < 0"
    if o == "eq0":
        return show(t.args[0], d) + " == 0"
    if o == "eq":
        return show(t.args[0], d) + " == " + show(t.args[1], d)
    if o == "isnone":
        return show(t.args[0], d) + " is None"
    if o == "in":
        return show(t.args[0], d) + " in " + show(t.args[1], d)
    if o == "truth":
        return "bool " + show(t.args[0], d)
    if o == "attr":
        return show(t.args[0], d) + "." + str(t.data)
    if o == "index":
        return show(t.args[0], d) + "[" + show(t.args[1], d) + "]"
    if o == "slice":
        return ":".join("" if a is NONE else show(a, d) for a in t.args)
    if o == "tuple":
        return "(" + ", ".join(show(a, d) for a in t.args) + ")"
    if o == "list":
        return "[" + ", ".join(show(a, d) for a in t.args) + "]"
    if o in ("call", "meth"):
        name, kws = t.data
        args = list(t.args)
        pre = ""
        if o == "meth":
            pre = show(args[0], d) + "."
            args = args[1:]
        np_ = len(args) - len(kws)
        s = [show(a, d) for a in args[:np_]] + [
            f"{k}={show(a, d)}" for k, a in zip(kws, args[np_:])]
        return f"{pre}{name}({', '.join(s)})"
    if o == "dict":
        b = t.args[0]
        s = []
        if b.op != "absent":
            s.append("**" + show(b, d))
        s += [f"{show(t.args[i], d)}: {show(t.args[i + 1], d)}"
              for i in range(1, len(t.args) - 1, 2)]
        return "{" + ", ".join(s) + "}"
    if o == "post":
        return f"self.{t.data} after {show(t.args[0], d)}"
    s = ", ".join(show(a, d) for a in t.args)
    dd = "" if t.data is None else f"<{t.data}>"
    return f"{o}{dd}({s})"
