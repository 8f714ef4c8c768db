"""Compare two gated values: where can they differ?

Both values are in normal form; equal values are mostly the same node.  What
is left is compared structurally under a care set (conditions under which the
values matter), with the elementary exclusions between condition atoms
(x == 'a' excludes x == 'b', x < 0 implies x < 1, ...).
"""
import itertools
from fractions import Fraction
from .terms import *  # noqa: F401,F403
from . import lib, terms as tm


def lin_key(p):
    """(non constant part, constant) of a linear/polynomial term."""
    if p.op == "rat" and not p.data[1]:
        n = dict(p.data[0])
        c = n.pop((), 0)
        return tuple(sorted(n.items())), c
    return ((((p.id, 1),), 1),), 0


def _negkey(k):
    return tuple(sorted((m, -c) for m, c in k))


def exclusions(atoms):
    """Conditions known to hold between atoms, as diagrams."""
    out = []
    atoms = list(atoms)
    eqs = {}
    for a in atoms:
        if a.op == "eq":
            x, y = a.args
            for u, v in ((x, y), (y, x)):
                if v.op == "const" and u.op != "const":
                    eqs.setdefault(u.id, []).append((a, v))
        elif a.op == "isnone":
            eqs.setdefault(a.args[0].id, []).append((a, NONE))
        elif a.op == "eq0":
            k, c = lin_key(a.args[0])
            lead = k[-1][1]
            kk = tuple((m, v / lead) for m, v in k)
            eqs.setdefault(("lin", kk), []).append((a, const(-c / lead)))
    for lst in eqs.values():
        for i in range(len(lst)):
            for j in range(i):
                if lst[i][1] is not lst[j][1]:
                    out.append(bnot(band(atom(lst[i][0]), atom(lst[j][0]))))
    # None is falsy; a value that is None is not a member / callable etc.
    byarg = {a.args[0].id: a for a in atoms if a.op == "isnone"}
    for a in atoms:
        if a.op == "truth" and a.args[0].id in byarg:
            out.append(bnot(band(atom(byarg[a.args[0].id]), atom(a))))
        if a.op == "call" and a.data[0] in ("isinstance", "callable") and \
                a.args[0].id in byarg:
            out.append(bnot(band(atom(byarg[a.args[0].id]), atom(a))))
        if a.op in ("lt0", "eq0"):
            for x in (a.args[0],) + (a.args[0].args
                                     if a.args[0].op == "rat" else ()):
                if x.id in byarg:
                    out.append(bnot(band(atom(byarg[x.id]), atom(a))))
    # x == const implies truth
    for a in atoms:
        if a.op == "truth":
            for b, v in eqs.get(a.args[0].id, ()):
                if v.op == "const" and v.data[0] == "str" and v.data[1]:
                    out.append(bor(bnot(atom(b)), atom(a)))
                if v.op == "const" and v.data[0] == "str" and not v.data[1]:
                    out.append(bnot(band(atom(b), atom(a))))
    # isinstance of two different basic types
    inst = {}
    for a in atoms:
        if a.op == "call" and a.data[0] == "isinstance" and \
                a.args[1].op == "extref":
            inst.setdefault(a.args[0].id, []).append(a)
    basic = {"str", "list", "dict", "tuple", "int", "float"}
    for lst in inst.values():
        for i in range(len(lst)):
            for j in range(i):
                p, q = lst[i].args[1].data, lst[j].args[1].data
                if p in basic and q in basic and p != q:
                    out.append(bnot(band(atom(lst[i]), atom(lst[j]))))
    # ordering atoms
    lts = [(a,) + lin_key(a.args[0]) for a in atoms if a.op == "lt0"]
    e0 = [(a,) + lin_key(a.args[0]) for a in atoms if a.op == "eq0"]
    by = {}
    for a, k, c in lts:
        by.setdefault(k, []).append((a, c))
    for k, lst in by.items():
        for i in range(len(lst)):
            for j in range(len(lst)):
                a, c = lst[i]
                b, d = lst[j]
                # p + c < 0 and c > d  =>  p + d < 0
                if a is not b and c > d:
                    out.append(bor(bnot(atom(a)), atom(b)))
        for b, d in by.get(_negkey(k), ()):
            for a, c in lst:
                # p + c < 0 and -p + d < 0 => c + d < 0
                if a.id < b.id and c + d >= 0:
                    out.append(bnot(band(atom(a), atom(b))))
                # integers: one of them holds
                if a.id < b.id and is_int(a.args[0]) and c + d < 0 and False:
                    pass
        for b, kk, d in e0:
            for s in (1, -1):
                kq = kk if s == 1 else _negkey(kk)
                dd = d if s == 1 else -d
                if kq == k:
                    for a, c in lst:
                        # p = -dd: p + c < 0 iff c - dd < 0
                        if c - dd < 0:
                            out.append(bor(bnot(atom(b)), atom(a)))
                        else:
                            out.append(bnot(band(atom(b), atom(a))))
    # trichotomy for scaled forms is covered through canonical scaling
    return out


def axiom(terms_, care=TRUE):
    at = {}
    for t in terms_:
        bdd_atoms(t, at)
    ex = exclusions(at.values())
    r = TRUE
    for e in ex:
        r = band(r, e)
        if bdd_size(r) > 20000:
            break
    return r


def cofactor(t, x, v, memo=None):
    if t.op != "ite":
        return t
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        if t.args[0] is x:
            r = t.args[1 if v else 2]
        else:
            r = ite(atom(t.args[0]), cofactor(t.args[1], x, v, memo),
                    cofactor(t.args[2], x, v, memo))
        memo[t.id] = r
    return r


def differ(a, b, memo=None):
    """Condition under which two diagrams have different leaves."""
    if a is b:
        return FALSE
    if a.op != "ite" and b.op != "ite":
        return TRUE
    memo = {} if memo is None else memo
    k = (a.id, b.id)
    r = memo.get(k)
    if r is None:
        v = min((z.args[0] for z in (a, b) if z.op == "ite"),
                key=lambda z: z.id)
        a1, a0 = tm._cof(a, v)
        b1, b0 = tm._cof(b, v)
        r = ite(atom(v), differ(a1, b1, memo), differ(a0, b0, memo))
        memo[k] = r
    return r


def relevance(t, x):
    """Condition under which the diagram depends on the atom."""
    return differ(cofactor(t, x, True), cofactor(t, x, False))


_PARTS = {}


def parts(t):
    """The ids of all terms that t is made of."""
    r = _PARTS.get(t.id)
    if r is None:
        r, todo = {t.id}, [t]
        while todo:
            for x in todo.pop().args:
                if x.id not in r:
                    r.add(x.id)
                    todo.append(x)
        if len(_PARTS) > 20000:
            _PARTS.clear()
        _PARTS[t.id] = r
    return r


_FEASIBLE, _EQUAL = {}, {}


def feasible(c):
    """Condition c without the cases where a dictionary is empty although it
    has a key, and those where it lacks a key although an entry under that key is looked at (which raises)."""
    r = _FEASIBLE.get(c.id)
    if r is None:
        if len(_FEASIBLE) > 100000:
            _FEASIBLE.clear()
        r = _FEASIBLE[c.id] = possible(c)
    return r


def possible(c):
    ats = sorted(bdd_atoms(c).values(), key=lambda t: t.id)
    for x in ats:
        if x.op == "any":
            # some element satisfies it: there are elements
            e = eq(lib.n_len(x.args[0]), ZERO)
            if e.op == "ite" and e.args[0] in ats:
                c = ite(atom(x), band(c, bnot(e)), c)
        if x.op != "in" or x.args[0].op != "const":
            continue
        k, d = x.args
        y = mk("truth", (d,))
        if y in ats:
            # something with a key is not empty
            c = ite(atom(x), cofactor(c, y, True), c)
        ent = mk("index", (d, k)).id
        out = cofactor(c, x, False)
        if out is FALSE:
            continue
        read = [y for y in ats if y is not x and ent in parts(y)]
        for y in read:
            # the condition must not depend on the entry
            out = band(cofactor(out, y, True), cofactor(out, y, False))
        c = ite(atom(x), c, out)
        if c is FALSE:
            break
    return ordered(c)


REDUCTIONS = {"numpy.min", "numpy.max", "numpy.argmin", "numpy.argmax",
              "min", "max"}


def needed(t):
    """What is reduced to an extremum to compute t (which fails if empty)."""
    out, todo, seen = {}, [t], set()
    while todo:
        x = todo.pop()
        if x.id in seen or x.op in ("ite", "collect", "lambda", "dcollect",
                                    "loop", "loopout", "any"):
            continue
        seen.add(x.id)
        if x.op == "call" and x.data[0] in REDUCTIONS and len(x.args) == 1:
            out[x.args[0].id] = x.args[0]
        todo += x.args
    return out


def nonempty(a, b):
    """Condition under which computing either of them does not fail for lack
    of elements."""
    x, y = needed(a), needed(b)
    r = TRUE
    for i in x:
        if i in y:
            r = band(r, bnot(eq(lib.n_len(x[i]), ZERO)))
    return r


def bound_of(x, holds):
    """What a comparison says as u - v <= w (u < v + w if strict):
    (u, v, w, strict), with None for a missing quantity."""
    k, w = lin_key(x.args[0])
    if not k or len(k) > 2:
        return []
    s = abs(k[0][1])
    if len(k) == 2 and k[0][1] != -k[1][1]:
        return []
    try:
        w = Fraction(w) / s
    except (TypeError, ValueError):
        return []
    pos = [m for m, c in k if c > 0]
    neg_ = [m for m, c in k if c < 0]
    u, v = (pos + [None])[0], (neg_ + [None])[0]
    if x.op == "lt0":
        # u - v + w < 0, or not: v - u - w <= 0
        return [(u, v, -w, True)] if holds else [(v, u, w, False)]
    return [(u, v, -w, False), (v, u, w, False)] if holds else []


def contradiction(lits):
    """Comparisons (atom, truth) that cannot hold together: a cycle of
    u <= v + w with a negative total (or zero and one of them strict)."""
    edges = [(u, v, w, st, (x, h)) for x, h in lits
             for u, v, w, st in bound_of(x, h)]
    nodes = {n for e in edges for n in e[:2]}
    dist = {n: (0, 0) for n in nodes}
    pred = {}
    for i in range(len(nodes) + 1):
        last = None
        for e in edges:
            u, v, w, st, _ = e
            d = (dist[v][0] + w, dist[v][1] - st)
            if d < dist[u]:
                dist[u] = d
                pred[u] = e
                last = u
        if last is None:
            return None
    for _ in nodes:
        last = pred[last][1]
    core, n = [], last
    while True:
        e = pred[n]
        core.append(e[4])
        n = e[1]
        if n == last:
            return core


def linear(x, holds):
    """What a comparison says as p + w <= 0 (< 0 if strict)."""
    k, w = lin_key(x.args[0])
    try:
        p, w = {m: Fraction(c) for m, c in k}, Fraction(w)
    except (TypeError, ValueError):
        return []
    n = {m: -c for m, c in p.items()}
    if x.op == "lt0":
        return [(p, w, True)] if holds else [(n, -w, False)]
    return [(p, w, False), (n, -w, False)] if holds else []


def combination(lits, limit=400):
    """Comparisons of which a sum with positive factors is impossible
    (elimination of one quantity after the other)."""
    cs = [(p, w, st, frozenset([i])) for i, (x, h) in enumerate(lits)
          for p, w, st in linear(x, h)]
    while True:
        for p, w, st, why in cs:
            if not p and (w > 0 or w == 0 and st):
                return [lits[i] for i in why]
        cs = [c for c in cs if c[0]]
        up, down = {}, {}
        for p, *_ in cs:
            for m, c in p.items():
                d = up if c > 0 else down
                d[m] = d.get(m, 0) + 1
        ms = sorted(set(up) | set(down),
                    key=lambda m: (up.get(m, 0) * down.get(m, 0), m))
        if not ms:
            return None
        m = ms[0]
        new = [c for c in cs if m not in c[0]]
        pos = [c for c in cs if c[0].get(m, 0) > 0]
        neg_ = [c for c in cs if c[0].get(m, 0) < 0]
        for p, w, st, why in pos:
            for q, v, st2, why2 in neg_:
                f, g = 1 / p[m], -1 / q[m]
                r = {k: f * c for k, c in p.items()}
                for k, c in q.items():
                    r[k] = r.get(k, 0) + g * c
                new.append(({k: c for k, c in r.items() if c},
                            f * w + g * v, st or st2, why | why2))
        if len(new) > limit:
            return None
        cs = new


def ordered(c, limit=300):
    """Condition c without (some) cases whose comparisons contradict each
    other, a < b < c < a: FALSE if there are no others."""
    ats = [x for x in bdd_atoms(c).values() if x.op in ("lt0", "eq0")]
    if len(ats) < 2:
        return c
    ids = {x.id for x in ats}
    for _ in range(limit):
        lits, t = [], c
        while t.op == "ite":
            x = t.args[0]
            h = t.args[1] is not FALSE
            if x.id in ids:
                lits.append((x, h))
            t = t.args[1 if h else 2]
        core = contradiction(lits) or combination(lits)
        if core is None:
            return c
        c = band(c, bnot(ball([atom(x) if h else bnot(atom(x))
                               for x, h in core])))
        if c is FALSE:
            return c
    return c


COMPARE_EFFORT = 200000


def condition_atoms(t):
    """Condition atoms anywhere inside a term."""
    out = {x.args[0].id: x.args[0] for x in walk(t) if x.op == "ite"}
    return list(out.values())


def innermost(ts):
    """Those that do not contain another one."""
    ids = {x.id for x in ts}
    return [x for x in ts if not contains_below(x, ids)]


def numberings(ok, i0, j0, limit=200):
    """Numberings of n carried variables: their initial values agree, or all
    but one of them do, or the order is the same."""
    n = len(ok)
    seen = set()

    def rec(i, used, misses, acc):
        if len(seen) >= limit:
            return
        if i == n:
            t = tuple(acc)
            if t not in seen:
                seen.add(t)
                yield t
            return
        js = [j for j in range(n) if j not in used]
        if i == i0:
            js = [j for j in js if j == j0]
        elif i0 >= 0:
            js = [j for j in js if j != j0]
        for j in sorted(js, key=lambda j: (not ok[i][j], j != i)):
            if ok[i][j] or misses:
                yield from rec(i + 1, used | {j},
                               misses - (not ok[i][j]), acc + [j])
    yield from rec(0, frozenset(), 0, [])
    yield from rec(0, frozenset(), 1, [])
    t = tuple(range(n))
    if t not in seen and (i0 < 0 or i0 == j0):
        yield t


def pairings(pa, pb, at):
    """Ways to replace each of pb by one of pa."""
    if not pa or len(pa) != len(pb) or len(pa) > 64:
        return
    if at:
        # comparisons of the same quantities
        new = []
        for y in pb:
            c = [(n, x) for x in pa if x.op == y.op
                 for n in [same_quantities(x, y)] if n is not None]
            if len(c) != 1:
                break
            new.append(bnot(atom(c[0][1])) if c[0][0] else atom(c[0][1]))
        else:
            yield new
    if len(pa) > 3:
        return
    for perm in itertools.permutations(pa):
        if not at:
            yield perm
            continue
        for sign in itertools.product((0, 1), repeat=len(pa)):
            yield [bnot(atom(x)) if s else atom(x)
                   for x, s in zip(perm, sign)]


def same_quantities(x, y):
    """Whether one comparison is of the negated quantity of the other (None
    if they compare different things)."""
    if x.op != "lt0":
        return None
    (k, _), (q, _) = lin_key(x.args[0]), lin_key(y.args[0])
    return False if k == q else True if k == _negkey(q) else None


def contains_below(x, ids):
    return any(y.id in ids for a in x.args for y in walk(a))


class Diff:
    def __init__(self, cond, spec, impl, path):
        self.cond, self.spec, self.impl, self.path = cond, spec, impl, path


class Comparer:
    def __init__(self, limit=4000, nan_ok=True):
        self.memo = {}
        self.diffs = []
        self.limit = limit
        self.n = 0
        self.aligned = {}
        self.nested = 0

    def compare(self, a, b, care=TRUE):
        """Differences between a (reference) and b under care."""
        self.diffs = []
        tm.EFFORT[0] = COMPARE_EFFORT
        try:
            self.cmp(a, b, care, (), 0)
        except tm.TooLarge:
            tm.EFFORT[0] = None
            self.diffs = self.root_cause(a, b, care)
        finally:
            tm.EFFORT[0] = None
        self.diffs = [d for d in self.diffs
                      if feasible(d.cond) is not FALSE]
        return self.diffs

    def root_cause(self, a, b, care):
        """Differences of the innermost parts that differ, if these are all
        that distinguishes the two values."""
        na, nb = {x.id: x for x in walk(a)}, {x.id: x for x in walk(b)}
        for parts in (condition_atoms, lambda t: list(walk(t))):
            pa = innermost([x for x in parts(a) if x.id not in nb])
            pb = innermost([x for x in parts(b) if x.id not in na])
            at = parts is condition_atoms
            for new in pairings(pa, pb, at):
                tm.EFFORT[0] = COMPARE_EFFORT
                try:
                    c = subst(b, {y.id: x for x, y in zip(new, pb)})
                except tm.TooLarge:
                    continue
                finally:
                    tm.EFFORT[0] = None
                if c is not a:
                    continue
                self.diffs = []
                for x, y in zip(new, pb):
                    self.cmp(x, atom(y) if at else y, care, ("inside",), 0)
                return self.diffs
        return [Diff(care, a, b, ("limit",))]

    def forced(self, a, b, care):
        """Is a == b a consequence of the conditions (x is 2 where x == 2)?"""
        if care is TRUE or not (is_num(a) or is_num(b) or a.op == "const"
                                or b.op == "const"):
            return False
        try:
            c = isnone(a if b is NONE else b) if NONE in (a, b) else eq(a, b)
        except Exception:
            return False
        if c.op != "ite" or not any(x in bdd_atoms(care).values()
                                    for x in bdd_atoms(c).values()):
            return False
        return band(care, bnot(c)) is FALSE

    def restrict(self, a, b, care):
        ax = axiom([a, b, care])
        return band(care, ax)

    def equal(self, a, b, care):
        k = (a.id, b.id, care.id)
        known = _EQUAL.get(k)
        if known is not None:
            return known
        c = Comparer(self.limit)
        c.n = self.n
        c.cmp(a, b, care, (), 0, probe=True)
        self.n = c.n
        if c.n <= self.limit:
            if len(_EQUAL) > 300000:
                _EQUAL.clear()
            _EQUAL[k] = not c.diffs
        return not c.diffs

    def cmp(self, a, b, care, path, depth, probe=False):
        if a is b or care is FALSE:
            return
        if probe and self.diffs:
            return
        self.n += 1
        if self.n > self.limit:
            self.diffs.append(Diff(care, a, b, path + ("limit",)))
            return
        if a.op == "ite" or b.op == "ite":
            care = self.restrict(a, b, care)
            if care is FALSE:
                return
            a2, b2 = constrain(a, care), constrain(b, care)
            if a2 is b2:
                return
            # identify condition atoms that are equal under the care set
            m = self.unify_atoms(a2, b2, care)
            if m:
                b2 = self.replace_atoms(b2, m)
                care = self.replace_atoms(care, m)
                care = self.restrict(a2, b2, care)
                a2, b2 = constrain(a2, care), constrain(b2, care)
                if a2 is b2:
                    return
            for c, x, y in self.pairs(a2, b2, care):
                self.cmp(x, y, c, path, depth + 1, probe)
                if probe and self.diffs:
                    return
            return
        if self.forced(a, b, care):
            return
        if depth < 40 and self.extreme(a, b, care, path, depth, probe):
            return
        if depth < 40 and self.congruent(a, b, care, path, depth, probe):
            return
        if feasible(band(care, nonempty(a, b))) is FALSE:
            return
        if depth < 40 and not probe and "concat" in (a.op, b.op) and \
                a.op != b.op and "loop*" not in path:
            # one of the parts of a sequence is all there is of the other
            x, y = (a, b) if a.op == "concat" else (b, a)
            if any(self.equal(p, y, care) for p in x.args):
                path += ("part",)
        self.diffs.append(Diff(care, a, b, path))

    def extreme(self, a, b, care, path, depth, probe):
        """min(x, y) and max(x, y): the order of the arguments is immaterial;
        otherwise the smaller one where it is smaller."""
        def which(t):
            return t.data[0] if t.op == "call" and len(t.args) == 2 and \
                t.data in (("min", ()), ("max", ())) else None
        wa, wb = which(a), which(b)
        if wa is None and wb is None:
            return False
        if wa == wb:
            for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
                x, y = a.args[i], b.args[j]
                if x is y or self.equal(x, y, care):
                    self.cmp(a.args[1 - i], b.args[1 - j], care,
                             path + (f"{wa}()",), depth + 1, probe)
                    return True
        try:
            u, v = (a if wa else b).args
            c, d = lt(u, v), lt(v, u)
        except Exception:
            return False
        if c.op != "ite":
            return False
        care = band(care, axiom([c, d, care]))

        def on(t, w, less):
            return t if w is None or (a if wa else b).args != t.args else \
                t.args[0 if less == (w == "min") else 1]
        self.cmp(on(a, wa, True), on(b, wb, True), band(care, c), path,
                 depth + 1, probe)
        self.cmp(on(a, wa, False), on(b, wb, False), band(care, d),
                 path, depth + 1, probe)
        tie = band(care, band(bnot(c), bnot(d)))
        x, y = on(a, wa, True), on(b, wb, True)
        z = (u, v) if x in (u, v) and y in (u, v) else ()
        if tie is not FALSE and not z:
            self.cmp(x, y, tie, path, depth + 1, probe)
        return True

    def unify_atoms(self, a, b, care):
        at, bt = bdd_atoms(a), bdd_atoms(b)
        only_a = [x for i, x in at.items() if i not in bt]
        only_b = [x for i, x in bt.items() if i not in at]
        m = {}
        for y in only_b:
            for x in only_a:
                if x.op == y.op and x.data == y.data and \
                        len(x.args) == len(y.args):
                    ok = True
                    # the atoms have to agree where one of them matters
                    where = band(care, bor(relevance(a, x),
                                           relevance(b, y)))
                    for p, q in zip(x.args, y.args):
                        if p is not q and not self.equal(p, q, where):
                            ok = False
                            break
                    if ok:
                        m[y.id] = x
                        break
        return m

    def replace_atoms(self, t, m, memo=None):
        memo = {} if memo is None else memo
        if t.op != "ite":
            return t
        r = memo.get(t.id)
        if r is None:
            x = m.get(t.args[0].id, t.args[0])
            r = ite(atom(x), self.replace_atoms(t.args[1], m, memo),
                    self.replace_atoms(t.args[2], m, memo))
            memo[t.id] = r
        return r

    def pairs(self, a, b, care):
        """Pairs of leaves of a and b that meet under care."""
        out = {}
        seen = {}

        def rec(x, y, c):
            if c is FALSE or x is y:
                return
            k = (x.id, y.id, c.id)
            if k in seen:
                return
            seen[k] = True
            if len(seen) > 20000:
                return
            if x.op != "ite" and y.op != "ite":
                out[(x.id, y.id)] = True
                return
            v = min((z.args[0] for z in (x, y) if z.op == "ite"),
                    key=lambda z: z.id)
            # order: c may have smaller atoms on top
            if c.op == "ite" and c.args[0].id < v.id:
                rec(x, y, c.args[1])
                rec(x, y, c.args[2])
                return
            x1, x0 = tm._cof(x, v)
            y1, y0 = tm._cof(y, v)
            c1, c0 = tm._cof(c, v)
            rec(x1, y1, c1)
            rec(x0, y0, c0)
        rec(a, b, care)
        res = []
        for i, j in out:
            x, y = tm.node(i), tm.node(j)
            ca = map_leaves(lambda z: TRUE if z is x else FALSE, a)
            cb = map_leaves(lambda z: TRUE if z is y else FALSE, b)
            c = band(band(ca, cb), care)
            if c is not FALSE:
                res.append((c, x, y))
        return res

    def congruent(self, a, b, care, path, depth, probe):
        """Descend into applications of the same head.  True if handled."""
        if a.op == "rat" or b.op == "rat":
            return self.cmp_rat(a, b, care, path, depth, probe)
        if unpacked(a, b) or unpacked(b, a):
            return True
        if a.op == "dict" and b.op != "dict":
            b = displayed(b) or (mk("dict", (b,)) if a.args[0] is b else b)
        elif b.op == "dict" and a.op != "dict":
            a = displayed(a) or (mk("dict", (a,)) if b.args[0] is a else a)
        if a.op == b.op and len(a.args) == len(b.args) and (
                a.data != b.data or a.op == "loopout"):
            a, b = relevel(a, b)
            if a is b:
                return True
        if a.op == "loopout" and b.op == "loopout":
            b = self.align(a, b, care)
        if a.op != b.op or len(a.args) != len(b.args) or a.data != b.data:
            if a.op == "dict" and b.op == "dict":
                return self.cmp_dict(a, b, care, path, depth, probe)
            if a.op == "inst" and b.op == "inst" and a.data == b.data:
                return self.cmp_dict(a, b, care, path, depth, probe, 0)
            return False
        if a.op in ("const", "sym", "ref", "bv", "idx", "mu"):
            return False
        if a.op in ("dict",):
            return self.cmp_dict(a, b, care, path, depth, probe)
        if a.op in ("setof",):
            pass
        if a.op in ("tuple", "list", "inst", "instof", "call", "meth",
                    "attr", "index", "slice", "concat", "collect",
                    "dcollect", "flat", "first", "sum", "dstore", "whereidx",
                    "fstr", "lambda", "apply", "setof", "set", "dunion",
                    "paren", "pow", "partial", "boundref", "each", "repeat",
                    "eachloop", "loopout", "loop", "any", "eq", "isnone",
                    "in", "truth", "lt0", "eq0", "keysof", "fmt", "range",
                    "wheretuple", "loopany", "loopfirst", "setdiff",
                    "setunion", "post"):
            nd = [i for i in range(len(a.args))
                  if a.args[i] is not b.args[i]]
            if a.op in ("collect", "dcollect", "sum", "flat", "first",
                        "any", "loop", "lambda"):
                # conditions on bound variables are local: the outer care
                # set still applies to the free atoms
                pass
            # what is carried from one round to the next may not be the same
            # thing on both sides
            other = a.op == "loop" and any(0 < i <= a.data[0] for i in nd)
            for i in nd:
                self.cmp(a.args[i], b.args[i], care, path + (
                    "loop*" if other else label(a, i),), depth + 1, probe)
            return True
        return False

    def align(self, a, b, care):
        """Number the variables carried by loop b like those of loop a."""
        p, q = a.args[0], b.args[0]
        if p.op != "loop" or q.op != "loop" or p.data != q.data or \
                len(p.args) != len(q.args) or p is q or a.data == b.data \
                and p.data[0] < 2:
            return b
        n, lvl = p.data
        if n < 2 or n > 14:
            return b
        key = (a.data, p.id, q.id, b.data, care.id)
        if key in self.aligned:
            return self.aligned[key]
        self.aligned[key] = b
        ia, ib = p.args[1:1 + n], q.args[1:1 + n]
        ok = [[ia[i] is ib[j] or self.equal(ia[i], ib[j], care)
               for j in range(n)] for i in range(n)]
        best, score = b, None
        for perm in numberings(ok, a.data, b.data):
            # slot i of a is slot perm[i] of b
            k = sum(ok[i][perm[i]] for i in range(n))
            c = permuted(b, perm, n, lvl)
            pc = c.args[0]
            same = sum(x is y for x, y in zip(pc.args, p.args))
            if k == n and same < len(p.args) and self.nested < 2:
                self.nested += 1
                same += sum(x is not y and self.equal(x, y, care)
                            for x, y in zip(pc.args, p.args))
                self.nested -= 1
            sc = (k + same, perm == tuple(range(n)))
            if score is None or sc > score:
                best, score = c, sc
            if same == len(p.args):
                break
        self.aligned[key] = best
        return best

    def cmp_dict(self, a, b, care, path, depth, probe, off=1):
        if off and a.args[0] is not b.args[0]:
            self.cmp(a.args[0], b.args[0], care, path + ("<base>",),
                     depth + 1, probe)
        da = {a.args[i].id: (a.args[i], a.args[i + 1])
              for i in range(off, len(a.args), 2)}
        db = {b.args[i].id: (b.args[i], b.args[i + 1])
              for i in range(off, len(b.args), 2)}
        for k in list(da) + [k for k in db if k not in da]:
            va = self.entry(a, off, da[k][0], da[k][1]) if k in da else \
                self.missing(a, off, db[k][0])
            vb = self.entry(b, off, db[k][0], db[k][1]) if k in db else \
                self.missing(b, off, da[k][0])
            if va is not vb:
                key = (da.get(k) or db.get(k))[0]
                self.cmp(va, vb, care, path + (show(key, 3),), depth + 1,
                         probe)
        return True

    def missing(self, d, off, k):
        return ABSENT if not off or d.args[0] is ABSENT else \
            map_leaves(lambda b: mk("index", (b, k))
                       if b is not ABSENT else b, d.args[0])

    def entry(self, d, off, k, v):
        """Value under key k; a key that is neither stored nor in the base
        reads as the base's (missing) value."""
        if not off or d.args[0] is ABSENT or not any(
                x is ABSENT for x in leaves(v)):
            return v
        c = map_leaves(lambda x: TRUE if x is ABSENT else FALSE, v)
        out = map_leaves(lambda b: FALSE if b is ABSENT else
                         bnot(atom(mk("in", (k, b)))), d.args[0])
        return ite(band(c, out), self.missing(d, off, k), v)

    def cmp_rat(self, a, b, care, path, depth, probe):
        """Match atoms of two rational terms that are equal under care."""
        if a.op != b.op:
            return False
        aa = [x for x in a.args if x not in b.args]
        bb = [x for x in b.args if x not in a.args]
        if len(aa) != len(bb) or not aa or len(aa) > 6:
            return False
        m = {}
        used = set()
        for y in bb:
            for x in aa:
                if x.id in used or x.op != y.op:
                    continue
                if self.equal(x, y, care):
                    m[y.id] = x
                    used.add(x.id)
                    break
        b2 = subst(b, m) if m else b
        if b2 is a:
            return True
        # a single pair of differing operands: blame it
        if len(aa) == 1 and len(bb) == 1 and not m:
            x, y = aa[0], bb[0]
            if subst(b, {y.id: x}) is a and x.op == y.op and x.op not in (
                    "sym", "const"):
                self.cmp(x, y, care, path, depth + 1, probe)
                return True
        return False


KEYS_OF = [lambda head: None]       # the keys known of what calls give


def displayed(t):
    ks = KEYS_OF[0](t.data[0]) if t.op == "call" else None
    return ks and mk("dict", (ABSENT, *[
        y for k in sorted(map(const, ks), key=lambda x: x.id)
        for y in (k, mk("index", (t, k)))]))


def relevel(a, b):
    """Name the bound variables of two constructs of one kind alike."""
    if a.op in ("collect", "dcollect", "sum", "flat", "first", "any"):
        low = a if a.data < b.data else b
        args, top = list(low.args), max(a.data, b.data)
        m = {mk("bv", (), low.data).id: mk("bv", (), top)}
        data, k = top, 1
    elif a.op == "loop" and a.data[0] == b.data[0]:
        n = a.data[0]
        low = a if a.data[1] < b.data[1] else b
        args, top = list(low.args), max(a.data[1], b.data[1])
        m = {mk("bv", (), low.data[1] + j).id: mk("bv", (), top + j)
             for j in range(n + 1)}
        data, k = (n, top), 1 + n
    elif a.op == "loopout":
        x, y = a.args[0], b.args[0]
        if x.op == "loop" and y.op == "loop" and x.data != y.data and \
                x.data[0] == y.data[0]:
            x, y = relevel(x, y)
            return mk("loopout", (x,), a.data), mk("loopout", (y,), b.data)
        return a, b
    else:
        return a, b
    memo = {}
    args = args[:k] + [subst(x, m, memo) for x in args[k:]]
    new = mk(a.op, tuple(args), data)
    return (new, b) if low is a else (a, new)


def permuted(t, perm, n, lvl):
    """loopout term whose slot i is slot perm[i] of the given one."""
    l = t.args[0]
    inv = {p: i for i, p in enumerate(perm)}
    m = {mk("bv", (), lvl + 1 + j).id: mk("bv", (), lvl + 1 + inv[j])
         for j in range(n) if inv[j] != j}
    memo = {}
    a = l.args
    ins = [a[1 + perm[i]] for i in range(n)]
    rest = [subst(x, m, memo) for x in a[1 + n:]]
    nx = [rest[2 + perm[i]] for i in range(n)]
    l2 = mk("loop", (a[0], *ins, *rest[:2], *nx, *rest[2 + n:]), l.data)
    return mk("loopout", (l2,), inv[t.data] if t.data >= 0 else -1)


def unpacked(a, b):
    """a is the tuple (b[0], ..., b[n-1]) of the sequence b."""
    return a.op == "tuple" and a.args and b.op in ("call", "meth") and all(
        x.op == "index" and x.args[0] is b and x.args[1] is const(i)
        for i, x in enumerate(a.args))


def label(a, i):
    if a.op in ("call", "meth"):
        name, kws = a.data
        n = len(a.args) - len(kws)
        if i >= n:
            return f"{name}({kws[i - n]}=)"
        return f"{name}(arg {i})"
    if a.op in ("tuple", "list"):
        return f"[{i}]"
    if a.op == "index":
        return "subscript" if i else "subscripted value"
    if a.op == "attr":
        return "." + str(a.data)
    return a.op
