"""Meaning of builtins and library functions for the value-flow evaluation.

Only identities that hold for every input are used here (e.g. ``x.max()`` and
``np.max(x)`` are the same value).  Everything that is not listed stays an
uninterpreted application of its (canonical) name.
"""
import builtins
from fractions import Fraction
from .terms import *  # noqa: F401,F403
from . import terms as tm

BUILTINS = set(dir(builtins))

BOOL_FUNCS = {
    "isinstance", "callable", "hasattr", "issubclass", "bool",
    "numpy.any", "numpy.all", "numpy.allclose", "numpy.isnan",
    "numpy.isclose", "numpy.isfinite", "numpy.isinf", "numpy.array_equal",
    "os.path.exists", "os.path.isfile", "os.path.isdir", "numpy.isin",
    "numpy.iscomplexobj", "numpy.isscalar",
}

ARRAY_METHODS = {
    "max", "min", "sum", "mean", "argmin", "argmax", "any", "all", "copy",
    "astype", "flatten", "ravel", "dot", "cumsum", "conj", "conjugate",
    "reshape", "item", "tolist", "std", "argsort", "round",
}

PURE_METHODS = ARRAY_METHODS | {
    "join", "format", "lower", "upper", "strip", "split", "startswith",
    "endswith", "replace", "keys", "items", "values", "get", "append",
    "extend", "update", "rsplit", "splitlines", "rstrip", "lstrip",
    "info", "debug", "warning",
}

# methods of tables and records that touch no file
IN_MEMORY = {"to_dict", "copy", "astype", "dropna", "unique", "iterrows",
             "itertuples", "sort_values", "reset_index", "to_numpy", "head",
             "tail", "rename", "assign", "merge", "set_index"}

PURE = {"len", "print", "abs", "min", "max", "sum", "range", "zip",
        "enumerate", "list", "dict", "tuple", "set", "str", "isinstance",
        "hasattr", "callable", "bool", "sorted", "repr", "type", "id",
        "copy.deepcopy", "copy.copy", "functools.partial", "reversed"}

_CANON = {
    "numpy.absolute": "numpy.abs", "abs": "numpy.abs",
    "math.fabs": "numpy.abs", "numpy.fabs": "numpy.abs",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "math.sqrt": "numpy.sqrt", "math.exp": "numpy.exp",
    "math.sin": "numpy.sin", "math.cos": "numpy.cos",
    "math.log": "numpy.log", "math.log10": "numpy.log10",
    "math.floor": "numpy.floor", "math.ceil": "numpy.ceil",
    "numpy.arcsin": "numpy.arcsin", "math.isnan": "numpy.isnan",
    "numpy.conjugate": "numpy.conj", "numpy.round_": "numpy.round",
    "numpy.copy": "numpy.copy", "copy.copy": "copy.copy",
    "numpy.math.pi": "numpy.pi", "numpy.bitwise_and": "numpy.logical_and",
    "numpy.bitwise_or": "numpy.logical_or", "io.open": "open",
    "numpy.invert": "numpy.logical_not",
    "numpy.true_divide": "numpy.divide", "math.atan2": "numpy.arctan2",
    "builtins.print": "print",
}


def canon(d):
    if d.startswith("builtins."):
        d = d[9:]
    return _CANON.get(d, d)


_CONST = {
    "numpy.pi": PI, "math.pi": PI, "scipy.constants.pi": PI,
    "numpy.inf": sym("float:inf"), "math.inf": sym("float:inf"),
    "numpy.nan": sym("float:nan"), "math.nan": sym("float:nan"),
    "numpy.newaxis": NONE, "numpy.Inf": sym("float:inf"),
    "numpy.NaN": sym("float:nan"),
    "True": TRUE, "False": FALSE, "None": NONE, "Ellipsis": const(...),
}


def constant(d):
    return _CONST.get(d)


# positional parameter names of library functions (so that positional and
# keyword spellings coincide)
SIG = {
    "scipy.signal.find_peaks": ["x", "height", "threshold", "distance",
                                "prominence", "width"],
    "scipy.interpolate.InterpolatedUnivariateSpline":
        ["x", "y", "w", "bbox", "k", "ext", "check_finite"],
    "scipy.interpolate.PchipInterpolator": ["x", "y", "axis", "extrapolate"],
    "scipy.interpolate.interp1d": ["x", "y", "kind"],
    "scipy.optimize.curve_fit": ["f", "xdata", "ydata", "p0", "sigma"],
    "scipy.optimize.least_squares": ["fun", "x0", "jac", "bounds", "method"],
    "numpy.gradient": ["f", "x"],
    "numpy.interp": ["x", "xp", "fp", "left", "right"],
    "numpy.searchsorted": ["a", "v", "side", "sorter"],
    "numpy.allclose": ["a", "b", "rtol", "atol", "equal_nan"],
    "numpy.linspace": ["start", "stop", "num"],
    "numpy.arctan2": ["y", "x"],
    "numpy.append": ["arr", "values", "axis"],
    "numpy.unwrap": ["p"],
    "numpy.angle": ["z", "deg"],
    "numpy.clip": ["a", "a_min", "a_max"],
    "numpy.full": ["shape", "fill_value", "dtype"],
    "numpy.zeros": ["shape", "dtype"],
    "numpy.ones": ["shape", "dtype"],
    "numpy.max": ["a", "axis"], "numpy.min": ["a", "axis"],
    "numpy.sum": ["a", "axis"], "numpy.mean": ["a", "axis"],
    "numpy.diff": ["a", "n", "axis"],
    "numpy.argmin": ["a", "axis"], "numpy.argmax": ["a", "axis"],
    "numpy.where": ["condition", "x", "y"],
    "numpy.concatenate": ["arrays", "axis"],
    "numpy.pad": ["array", "pad_width", "mode"],
    "numpy.fft.rfft": ["a", "n"], "numpy.fft.irfft": ["a", "n"],
    "numpy.fft.rfftfreq": ["n", "d"],
    "numpy.hanning": ["M"], "numpy.hamming": ["M"],
    "numpy.abs": ["x"], "numpy.median": ["a", "axis"],
    "numpy.cumsum": ["a", "axis"], "numpy.sort": ["a", "axis"],
    "numpy.argsort": ["a", "axis"], "numpy.unique": ["ar"],
    "numpy.round": ["a", "decimals"], "numpy.array": ["object", "dtype"],
    "numpy.asarray": ["a", "dtype"], "numpy.copy": ["a"],
    "numpy.isclose": ["a", "b", "rtol", "atol", "equal_nan"],
    "numpy.zeros_like": ["a", "dtype"], "numpy.ones_like": ["a", "dtype"],
    "numpy.reshape": ["a", "shape", "order"],
    "numpy.any": ["a", "axis"], "numpy.all": ["a", "axis"],
    "numpy.linalg.norm": ["x", "ord", "axis"],
    "numpy.linalg.svd": ["a", "full_matrices"],
    "numpy.linalg.qr": ["a", "mode"],
    "numpy.testing.assert_allclose": ["actual", "desired", "rtol", "atol"],
    "scipy.linalg.solve_triangular": ["a", "b", "trans", "lower"],
    "json.loads": ["s"], "copy.deepcopy": ["x"],
    "os.makedirs": ["name", "mode", "exist_ok"],
    "getattr": ["object", "name", "default"],
    "open": ["file", "mode"],
    "h5py.File": ["name", "mode"],
    "json.load": ["fp"],
    "json.dump": ["obj", "fp"],
    "warnings.warn": ["message", "category"],
}
ext_float = mk("extref", (), "float")
_DEFAULTS = {
    ("numpy.searchsorted", "side"): const("left"),
    ("open", "mode"): const("r"),
    ("h5py.File", "mode"): const("r"),
    ("numpy.linspace", "num"): const(50),
    ("scipy.interpolate.InterpolatedUnivariateSpline", "k"): const(3),
    ("scipy.interpolate.InterpolatedUnivariateSpline", "ext"): const(0),
    ("scipy.interpolate.InterpolatedUnivariateSpline", "w"): NONE,
    ("scipy.interpolate.interp1d", "kind"): const("linear"),
    ("scipy.interpolate.PchipInterpolator", "axis"): const(0),
    ("scipy.optimize.curve_fit", "p0"): NONE,
    ("scipy.signal.find_peaks", "height"): NONE,
    ("scipy.signal.find_peaks", "threshold"): NONE,
    ("scipy.signal.find_peaks", "distance"): NONE,
    ("scipy.signal.find_peaks", "prominence"): NONE,
    ("scipy.signal.find_peaks", "width"): NONE,
    ("numpy.append", "axis"): NONE,
    ("numpy.max", "axis"): NONE, ("numpy.min", "axis"): NONE,
    ("numpy.sum", "axis"): NONE, ("numpy.mean", "axis"): NONE,
    ("numpy.argmin", "axis"): NONE, ("numpy.argmax", "axis"): NONE,
    ("numpy.diff", "n"): const(1),
    ("numpy.concatenate", "axis"): const(0),
    ("numpy.zeros", "dtype"): ext_float, ("numpy.ones", "dtype"): ext_float,
    ("numpy.angle", "deg"): FALSE,
    ("numpy.pad", "mode"): const("constant"),
    ("numpy.pad", "constant_values"): const(0),
    ("numpy.fft.rfftfreq", "d"): const(1),
    ("numpy.fft.rfft", "n"): NONE, ("numpy.fft.irfft", "n"): NONE,
    ("numpy.median", "axis"): NONE, ("numpy.cumsum", "axis"): NONE,
    ("numpy.any", "axis"): NONE, ("numpy.all", "axis"): NONE,
    ("numpy.sort", "axis"): const(-1), ("numpy.argsort", "axis"): const(-1),
    ("numpy.array", "dtype"): NONE, ("numpy.asarray", "dtype"): NONE,
    ("numpy.zeros_like", "dtype"): NONE,
    ("numpy.ones_like", "dtype"): NONE,
    ("numpy.linalg.norm", "ord"): NONE, ("numpy.linalg.norm", "axis"): NONE,
    ("numpy.linalg.qr", "mode"): const("reduced"),
    ("numpy.round", "decimals"): const(0),
}


def bind_ext(name, fargs, fk):
    sig = SIG.get(name)
    if not sig:
        return fargs, fk
    fargs, fk = list(fargs), dict(fk)
    if any(a.op == "starred" for a in fargs):
        return fargs, fk
    if name == "numpy.pad":
        if len(fargs) > 1:
            fargs[1] = pad_width(fargs[1])
        elif "pad_width" in fk:
            fk["pad_width"] = pad_width(fk["pad_width"])
    while len(fargs) < len(sig) and sig[len(fargs)] in fk:
        fargs.append(fk.pop(sig[len(fargs)]))
    for k in list(fk):
        if _DEFAULTS.get((name, k)) is fk[k]:
            del fk[k]
    while fargs and len(fargs) <= len(sig) and _DEFAULTS.get(
            (name, sig[len(fargs) - 1])) is fargs[-1]:
        fargs.pop()
    return fargs, fk


def pad_width(t):
    """n for (n, n), (a, b) for ((a, b),)."""
    while t.op in ("tuple", "list") and len(t.args) == 1:
        t = t.args[0]
    if t.op in ("tuple", "list") and len(t.args) == 2 and \
            t.args[0] is t.args[1] and t.args[0].op not in ("tuple", "list"):
        t = t.args[0]
    return t


def _app(op, data, args):
    from .interp import app
    return app(op, data, args)


# ------------------------------------------------------------- arithmetic
def _slice_diff(a, b):
    """x[k:] - x[:-k] -> diff for k = 1."""
    if a.op == "index" and b.op == "index" and a.args[0] is b.args[0]:
        sa, sb = a.args[1], b.args[1]
        if sa.op == "slice" and sb.op == "slice" and sa.args[0] is ONE and \
                sa.args[1] is NONE and sa.args[2] is NONE and \
                sb.args[0] is NONE and sb.args[1] is const(-1) and \
                sb.args[2] is NONE:
            return mk("call", (a.args[0],), ("numpy.diff", ()))
        # x[at[1:]] - x[at[:-1]]
        at = _slice_diff(sa, sb)
        if at is not None and at.op == "call":
            x = mk("index", (a.args[0], at.args[0]))
            return mk("call", (x,), ("numpy.diff", ()))
    return None


def _undiff(t):
    """x[:-1] + c*diff(x) with x[:-1] and x[1:] only."""
    if t.op != "rat":
        return t
    ats = [a for a in t.args if a.op in ("call", "index")]
    m = {}
    for a in ats:
        if a.op != "call" or a.data[0] != "numpy.diff" or len(a.args) != 1:
            continue
        x = a.args[0]
        lo = mk("index", (x, mk("slice", (NONE, const(-1), NONE))))
        hi = mk("index", (x, mk("slice", (ONE, NONE, NONE))))
        if lo in ats or hi in ats:
            m[a.id] = tm._add(hi, tm._mul(const(-1), lo))
    return subst(t, m) if m else t


def n_astype(args, data):
    """Truncated halves of (nonnegative) positions."""
    from .interp import positions
    a = args[0]
    if len(args) == 2 and args[1].op == "extref" and args[1].data == "int" \
            and a.op == "call" and a.data[0] == "floordiv" and \
            is_num(a.args[1]) and num(a.args[1]) > 0:
        x = a.args[0]
        if x.op == "rat" and not as_rat(x)[1] and all(
                c > 0 for c in as_rat(x)[0].values()) and all(
                positions(y) for y in x.args):
            args = [div(x, a.args[1]), args[1]]
    return mk("meth", tuple(args), data)


def arith(it, op, a, b):
    r = arith1(it, op, a, b)
    return _undiff(r) if op in ("Add", "Sub") else r


def arith1(it, op, a, b):
    if op in ("Add", "Sub", "Mult"):
        # truth values count as 0 and 1
        if is_bool(a):
            a = ite(a, const(1), const(0))
        if is_bool(b):
            b = ite(b, const(1), const(0))
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        if a.op in ("setof", "set") or b.op in ("setof", "set"):
            return mk("setdiff", (a, b))
        r = _slice_diff(a, b)
        if r is not None:
            return r
        r = _slice_diff(b, a)
        if r is not None:
            return neg(r)
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        return div(a, b)
    if op == "Pow":
        return power(a, b)
    if op in ("Mod", "FloorDiv"):
        from .interp import strish
        if op == "Mod" and strish(a):
            return _app("call", ("strformat", ()), [a, b])
        if is_num(a) and is_num(b) and num(b) != 0:
            x, y = num(a), num(b)
            return const(x % y if op == "Mod" else x // y)
        if any(x.op == "ite" and not is_bool(x) for x in (a, b)):
            return tm._dist2(lambda x, y: arith(it, op, x, y), a, b)
        if op == "FloorDiv" and is_num(b) and num(b) > 0 and \
                num(b).denominator == 1 and is_int(a) and count_like(a):
            return n_int([div(a, b)])
        return _app("call", ("mod" if op == "Mod" else "floordiv", ()),
                    [a, b])
    if op in ("BitAnd", "BitOr", "BitXor"):
        x, y = maskof(a), maskof(b)
        if x is not None and y is not None:
            if op == "BitAnd":
                return band(x, y)
            if op == "BitOr":
                return bor(x, y)
            return bor(band(x, bnot(y)), band(bnot(x), y))
        if a.op in ("setof", "set", "setdiff", "call") and op == "BitOr" \
                and a.op != "call":
            return mk("setunion", tuple(sorted((a, b), key=lambda t: t.id)))
        return _app("call", ("op" + op, ()), [a, b])
    if op == "MatMult":
        return tm._dist2(n_dot, a, b)
    return _app("call", ("op" + op, ()), [a, b])


def maskof(a):
    """Condition diagram of a boolean (array) value or None."""
    if is_bool(a):
        return a
    if a.op == "call" and a.data[0] in BOOL_FUNCS:
        return atom(a)
    if a.op == "ite":
        ls = [maskof(x) for x in leaves(a)]
        if all(x is not None for x in ls):
            return map_leaves(maskof, a)
    return None


def invert(a):
    m = maskof(a)
    if m is not None:
        return bnot(m)
    return map_leaves(lambda x: mk("call", (x,), ("opInvert", ())), a)


def setlike(a):
    return a


# -------------------------------------------------------- term normal forms
def n_len(x):
    if x.op == "ite" and not is_bool(x):
        return map_leaves(n_len, x)
    if x.op in ("list", "tuple", "set"):
        return const(len(x.args))
    if x.op == "concat":
        r = ZERO
        for a in x.args:
            r = add(r, n_len(a))
        return r
    if x.op in ("collect", "dcollect") and x.args[1] is TRUE:
        return n_len(x.args[0])
    if x.op == "const" and x.data[0] == "str":
        return const(len(x.data[1]))
    if x.op == "dict" and x.args[0] is ABSENT and not any(
            y is ABSENT for v in x.args[2::2] for y in leaves(v)) and \
            all(k.op == "const" for k in x.args[1::2]):
        return const(len(x.args[1::2]))
    if x.op == "call":
        h = x.data[0]
        if h == "numpy.diff" and len(x.args) == 1:
            return sub(n_len(x.args[0]), ONE)
        if h in ("numpy.array", "list", "tuple", "sorted", "numpy.sort",
                 "numpy.cumsum", "numpy.abs") and len(x.args) == 1:
            return n_len(x.args[0])
    if x.op == "range" and x.args[2] is ONE and is_num(x.args[0]) and \
            is_num(x.args[1]):
        return const(max(0, num(x.args[1]) - num(x.args[0])))
    if x.op == "dstore":
        from .interp import num_key
        if num_key(x.args[1]) or x.args[1].op in ("idx", "slice") or \
                x.args[1].op == "ite" and tm.is_bool(x.args[1]):
            return n_len(x.args[0])
    if x.op == "enumerated":
        return n_len(x.args[0])
    if x.op == "index" and is_bool(x.args[1]) and x.args[1].op == "ite":
        # as many as there are places where it holds
        return n_len(n_where(x.args[1]))
    return mk("call", (x,), ("len", ()))


def n_abs(x):
    if x.op == "ite" and not is_bool(x):
        return map_leaves(n_abs, x)
    if is_num(x):
        return const(abs(num(x)))
    if x.op == "rat":
        n, d = as_rat(x)
        if n[tm._lead(n)] < 0:
            x = neg(x)
        if len(n) == 1 and not d:
            (m, c), = n.items()
            if abs(c) != 1:
                return mul(const(abs(c)), n_abs(mul(x, const(1 / abs(c)))))
    if x.op == "call" and x.data[0] in ("numpy.abs", "len"):
        return x
    return mk("call", (x,), ("numpy.abs", ()))


def _minmax(name, args):
    """Extremum of several scalars."""
    for i, a in enumerate(args):
        if a.op == "ite" and not is_bool(a) and len(leaves(a)) <= 8:
            return map_leaves(lambda y: _minmax(
                name, args[:i] + [y] + args[i + 1:]), a)
    flat = []
    for a in args:
        if a.op == "call" and a.data == (name, ()):
            flat += list(a.args)
        else:
            flat.append(a)
    # constants are folded
    cs = [num(a) for a in flat if is_num(a)]
    if cs:
        c = max(cs) if name == "max" else min(cs)
        flat = [a for a in flat if not is_num(a)] + [const(c)]
    out = {}
    for a in flat:
        out[a.id] = a
    # terms that differ by a constant
    xs = sorted(out.values(), key=lambda t: t.id)
    keep = []
    for a in xs:
        dom = False
        for b in xs:
            if a is b:
                continue
            d = tm._add(a, tm._mul(const(-1), b))
            if is_num(d) and ((num(d) < 0) == (name == "max")):
                dom = True
        if not dom:
            keep.append(a)
    if len(keep) == 1:
        return keep[0]
    return mk("call", tuple(keep), (name, ()))


def n_extremum(which, x):
    """max/min of one iterable."""
    if x.op == "ite" and not is_bool(x):
        return map_leaves(lambda y: n_extremum(which, y), x)
    if x.op == "call" and x.data[0] in ("numpy.array", "list", "tuple",
                                        "set", "sorted", "numpy.sort") \
            and len(x.args) == 1:
        return n_extremum(which, x.args[0])
    if x.op == "setof":
        return n_extremum(which, x.args[0])
    if x.op in ("list", "tuple", "set") and x.args:
        return _minmax(which, list(x.args))
    c, y = number_factor(x)
    if c is not ONE:
        if next(iter(dict(c.data[0]).values() if c.op == "rat"
                     else [num(c)])) < 0:
            which = {"min": "max", "max": "min"}[which]
        return mul(c, n_extremum(which, y))
    return mk("call", (x,), ("numpy." + which, ()))


def n_sum(x):
    if x.op == "ite" and not is_bool(x):
        return map_leaves(n_sum, x)
    if x.op in ("list", "tuple"):
        r = ZERO
        for a in x.args:
            r = add(r, a)
        return r
    if x.op == "concat":
        r = ZERO
        for a in x.args:
            r = add(r, n_sum(a))
        return r
    if x.op == "collect":
        dom, g, e = x.args
        return mk("sum", (dom, ite(g, e, ZERO)), x.data)
    if x.op == "call" and x.data[0] in ("numpy.array", "list", "tuple") and \
            len(x.args) == 1:
        return n_sum(x.args[0])
    if is_bool(x) and x.op == "ite":
        return mk("call", (x,), ("countif", ()))
    xs = elements(x) if x.op == "rat" and any(
        a.op == "call" for a in x.args) else None
    if xs is not None:
        return n_sum(mk("list", tuple(xs)))
    return mk("call", (x,), ("numpy.sum", ()))


def elements(t):
    """Elements of an array of known length, else None."""
    if t.op == "call" and t.data[0] in ("numpy.array", "list", "tuple") and \
            len(t.args) == 1:
        t = t.args[0]
    if t.op in ("list", "tuple"):
        return list(t.args)
    if t.op == "rat":
        (num_, den) = t.data
        if len(num_) != 1 or den:
            return None
        mono, c = num_[0]
        if any(e != 1 for _, e in mono):
            return None
        out = None
        for a, _ in mono:
            x = elements(tm.node(a))
            if x is None or out is not None and len(out) != len(x):
                return None
            out = x if out is None else [mul(p, q) for p, q in zip(out, x)]
        return None if out is None else [mul(const(c), p) for p in out]
    if t.op == "index" and t.args[1].op == "slice":
        k = t.args[1]
        if not all(is_const(a) for a in k.args):
            return None
        a, b, c = (x.data[1] for x in k.args)
        a = a or 0
        if c not in (None, 1):
            return None
        if b is None:
            b = 0
            if a >= 0:
                return None
        elif (a < 0) != (b < 0):
            return None
        if not 0 < b - a <= 12:
            return None
        from .interp import t_index
        return [t_index(t.args[0], const(i))
                for i in range(int(a), int(b))]
    return None


def n_dot(a, b):
    """Sum of products, written out when one factor is a constant vector."""
    x, y = elements(a), elements(b)
    if x is None or y is None or len(x) != len(y) or not (
            all(is_num(p) for p in x) or all(is_num(p) for p in y)):
        return mk("meth", (a, b), ("dot", ()))
    r = ZERO
    for p, q in zip(x, y):
        r = add(r, mul(p, q))
    return r


def m_any_dot(it, o, args, kwargs, e, src):
    if len(args) != 1 or kwargs:
        return None
    return tm._dist2(n_dot, o, it.rv(args[0]))


def n_any(m):
    """np.any of an elementwise condition."""
    b = maskof(m)
    if b is TRUE or b is FALSE:
        return b
    if b is not None:
        return atom(mk("call", (b,), ("numpy.any", ())))
    if m.op in ("list", "tuple"):
        return bany(_truth(a) for a in m.args)
    if m.op == "concat":
        return bany(n_any(a) for a in m.args)
    if m.op == "collect":
        return t_any(m.args[0], band(m.args[1], _truth(m.args[2])), m.data)
    if m.op == "call" and m.data[0] in ("numpy.array", "list", "tuple"):
        return n_any(m.args[0])
    if m.op == "ite":
        return map_leaves(n_any, m)
    return atom(mk("call", (m,), ("numpy.any", ())))


def n_all(m):
    b = maskof(m)
    if b is not None:
        return bnot(n_any(bnot(b)))
    if m.op in ("list", "tuple"):
        return ball(_truth(a) for a in m.args)
    if m.op == "concat":
        return ball(n_all(a) for a in m.args)
    if m.op == "collect":
        return bnot(t_any(m.args[0], band(m.args[1], bnot(_truth(m.args[2]))),
                          m.data))
    if m.op == "call" and m.data[0] in ("numpy.array", "list", "tuple"):
        return n_all(m.args[0])
    if m.op == "ite":
        return map_leaves(n_all, m)
    return atom(mk("call", (m,), ("numpy.all", ())))


def _truth(v):
    def f(v):
        if v is TRUE or v is FALSE:
            return v
        if v is NONE or v is ABSENT or v is UNDEF:
            return FALSE
        if is_num(v):
            return FALSE if num(v) == 0 else TRUE
        if v.op == "const":
            return TRUE if v.data[1] else FALSE
        if v.op in ("list", "tuple"):
            return TRUE if v.args else FALSE
        if v.op == "call" and v.data[0] in BOOL_FUNCS:
            return atom(v)
        if v.op == "call" and is_int(v) or v.op == "rat":
            return bnot(eq(v, ZERO))
        return atom(mk("truth", (v,)))
    return map_leaves(f, v)


def _within(x, dom):
    return any(y is x for y in walk(dom))


def t_any(dom, g, lvl):
    """Condition: some element of dom satisfies g."""
    if dom.op == "ite" and not is_bool(dom):
        return map_leaves(lambda d: t_any(d, g, lvl), dom)
    if g is FALSE:
        return FALSE
    if dom.op in ("list", "tuple"):
        from .interp import t_index
        bv = mk("bv", (), lvl)
        out = FALSE
        for i, x in enumerate(dom.args):
            out = bor(out, subst(g, {t_index(dom, bv).id: x,
                                     bv.id: const(i)}))
        return out
    nonempty = bnot(eq(n_len(dom), ZERO))
    if g is TRUE:
        return nonempty
    bv = mk("bv", (), lvl)
    if not contains(g, {bv.id}):
        return band(nonempty, g)
    if dom.op == "flat" and not any(x.op == "bv" and x is not bv
                                    for x in walk(constrain(g, TRUE))
                                    if x is not dom and not _within(x, dom)):
        # over the elements of each part
        from .interp import t_index
        el, (d2, inner), l2 = mk("slotvar"), dom.args, dom.data
        g2 = subst(g, {t_index(dom, bv).id: el})
        if not contains(g2, {bv.id}):
            if inner.op == "collect":
                x = subst(g2, {el.id: inner.args[2]})
                return t_any(d2, t_any(inner.args[0], band(
                    inner.args[1], x), inner.data), l2)
            if inner.op in ("list", "tuple"):
                return t_any(d2, bany(subst(g2, {el.id: x})
                                      for x in inner.args), l2)
    # atoms of g that do not depend on the element move out
    for a in sorted(bdd_atoms(g).values(), key=lambda t: t.id):
        if not contains(a, {bv.id}):
            hi = constrain(g, atom(a))
            lo = constrain(g, bnot(atom(a)))
            return ite(atom(a), t_any(dom, hi, lvl), t_any(dom, lo, lvl))
    return atom(mk("any", (dom, g), lvl))


def n_where(m):
    b = maskof(m)
    if b is None:
        b = map_leaves(lambda x: bnot(eq(x, ZERO)), m)
    return mk("whereidx", (b,))


def n_logical(op, xs):
    out = []
    for x in xs:
        b = maskof(x)
        if b is None:
            b = _truth(x)
        out.append(b)
    return ball(out) if op == "and" else bany(out)


def n_isinstance(x, t):
    if x.op == "ite" and not is_bool(x):
        return map_leaves(lambda y: n_isinstance(y, t), x)
    if t.op == "tuple":
        return bany(n_isinstance(x, y) for y in t.args)
    nm = None
    if t.op == "extref":
        nm = t.data
    kinds = {"list": ("list", "concat", "collect"), "tuple": ("tuple",),
             "dict": ("dict", "dcollect", "dunion"), "str": ("fstr",)}
    if nm in kinds:
        if x.op in kinds[nm]:
            return TRUE
        if x.op == "const":
            return TRUE if x.data[0] == nm else FALSE
        if x.op in ("list", "tuple", "dict", "fstr", "rat", "collect",
                    "concat"):
            return FALSE
    if nm in ("int", "float", "bool") and x.op in ("list", "tuple", "dict",
                                                   "fstr"):
        return FALSE
    if nm == "bool" and is_bool(x):
        return TRUE
    if x is NONE and nm in ("list", "tuple", "dict", "str", "int", "float"):
        return FALSE
    if x.op == "inst" and t.op == "clsref":
        if x.data == t.data:
            return TRUE
    return atom(mk("call", (x, t), ("isinstance", ())))


def n_str(x):
    from .interp import fstr
    return fstr([x])


def n_power(a, b):
    return power(a, b)


def _same(x):
    return x


# name -> normaliser on frozen positional arguments (no keywords)
NORM = {
    "len": lambda a: n_len(a[0]) if len(a) == 1 else None,
    "numpy.size": lambda a: n_len(a[0]) if len(a) == 1 else None,
    "numpy.abs": lambda a: n_abs(a[0]) if len(a) == 1 else None,
    "numpy.sqrt": lambda a: power(a[0], const(Fraction(1, 2)))
    if len(a) == 1 else None,
    "numpy.power": lambda a: power(a[0], a[1]) if len(a) == 2 else None,
    "numpy.float_power": lambda a: power(a[0], a[1])
    if len(a) == 2 else None,
    "pow": lambda a: power(a[0], a[1]) if len(a) == 2 else None,
    "numpy.square": lambda a: mul(a[0], a[0]) if len(a) == 1 else None,
    "numpy.add": lambda a: add(a[0], a[1]) if len(a) == 2 else None,
    "numpy.subtract": lambda a: arith(None, "Sub", a[0], a[1])
    if len(a) == 2 else None,
    "numpy.multiply": lambda a: mul(a[0], a[1]) if len(a) == 2 else None,
    "numpy.divide": lambda a: div(a[0], a[1]) if len(a) == 2 else None,
    "numpy.negative": lambda a: neg(a[0]) if len(a) == 1 else None,
    "numpy.reciprocal": lambda a: inv(a[0]) if len(a) == 1 else None,
    "numpy.mod": lambda a: arith(None, "Mod", a[0], a[1])
    if len(a) == 2 else None,
    "numpy.remainder": lambda a: arith(None, "Mod", a[0], a[1])
    if len(a) == 2 else None,
    "numpy.greater": lambda a: lt(a[1], a[0]),
    "numpy.less": lambda a: lt(a[0], a[1]),
    "numpy.greater_equal": lambda a: le(a[1], a[0]),
    "numpy.less_equal": lambda a: le(a[0], a[1]),
    "numpy.equal": lambda a: eq(a[0], a[1]),
    "numpy.not_equal": lambda a: bnot(eq(a[0], a[1])),
    "numpy.logical_and": lambda a: n_logical("and", a)
    if len(a) == 2 else None,
    "numpy.logical_or": lambda a: n_logical("or", a)
    if len(a) == 2 else None,
    "numpy.logical_not": lambda a: bnot(n_logical("and", a))
    if len(a) == 1 else None,
    "numpy.max": lambda a: n_extremum("max", a[0]) if len(a) == 1 else None,
    "numpy.min": lambda a: n_extremum("min", a[0]) if len(a) == 1 else None,
    "max": lambda a: n_extremum("max", a[0]) if len(a) == 1
    else _minmax("max", list(a)),
    "min": lambda a: n_extremum("min", a[0]) if len(a) == 1
    else _minmax("min", list(a)),
    "numpy.sum": lambda a: n_sum(a[0]) if len(a) == 1 else None,
    "numpy.count_nonzero": lambda a: n_sum(a[0]) if len(a) == 1 else None,
    "sum": lambda a: n_sum(a[0]) if len(a) == 1 else add(n_sum(a[0]), a[1]),
    "any": lambda a: n_any(a[0]),
    "all": lambda a: n_all(a[0]),
    "numpy.any": lambda a: n_any(a[0]) if len(a) == 1 else None,
    "numpy.all": lambda a: n_all(a[0]) if len(a) == 1 else None,
    "isinstance": lambda a: n_isinstance(a[0], a[1]) if len(a) == 2
    else None,
    "str": lambda a: n_str(a[0]) if len(a) == 1 else None,
    "numpy.flatnonzero": lambda a: n_where(a[0]),
    "numpy.diff": lambda a: n_diff(a),
    "int": lambda a: n_int(a),
    "float": lambda a: n_float(a),
    "bool": lambda a: _truth(a[0]) if a else FALSE,
    "countif": lambda a: n_sum(a[0]),
    "numpy.real": lambda a: None,
    "set": lambda a: mk("setof", (a[0],)) if a else mk("set"),
    "frozenset": lambda a: mk("setof", (a[0],)) if a else mk("set"),
    "sorted": lambda a: n_sorted(a[0]) if len(a) == 1 else None,
    "numpy.maximum": lambda a: _app("call", ("numpy.maximum", ()), sorted(
        a, key=lambda t: t.id)),
    "numpy.minimum": lambda a: _app("call", ("numpy.minimum", ()), sorted(
        a, key=lambda t: t.id)),
    "numpy.asarray": lambda a: a[0] if len(a) == 1 else None,
    "mod": lambda a: arith(None, "Mod", a[0], a[1]),
    "numpy.dot": lambda a: tm._dist2(n_dot, a[0], a[1])
    if len(a) == 2 else None,
    "numpy.inner": lambda a: tm._dist2(n_dot, a[0], a[1])
    if len(a) == 2 else None,
    "numpy.matmul": lambda a: tm._dist2(n_dot, a[0], a[1])
    if len(a) == 2 else None,
    "numpy.where1": lambda a: n_where(a[0]),
    "numpy.mean": lambda a: n_mean(a),
    "numpy.append": lambda a: n_joined([n_row(x) for x in a])
    if len(a) == 2 else None,
    "numpy.concatenate": lambda a: n_joined(a[0].args) if len(
        a) == 1 and a[0].op in ("list", "tuple") else None,
    "numpy.hstack": lambda a: n_joined(a[0].args) if len(
        a) == 1 and a[0].op in ("list", "tuple") else None,
    "numpy.interp": lambda a: n_linear("numpy.interp", a, 2)
    if len(a) == 3 else None,
    "numpy.cumsum": lambda a: n_linear("numpy.cumsum", a, 0)
    if len(a) == 1 else None,
}


def n_mean(a):
    """The mean of the arrays of a list."""
    if len(a) == 2 and a[1] is ZERO and a[0].op in ("list", "tuple") and \
            a[0].args:
        return div(n_sum(a[0]), const(len(a[0].args)))
    return None


def n_row(x):
    return mk("list", (x,)) if is_num(x) else x


def n_joined(xs):
    """One-dimensional arrays put one after the other."""
    out = []
    for x in xs:
        if x.op == "call" and x.data == ("numpy.concatenate", ()) and \
                len(x.args) == 1 and x.args[0].op == "list":
            out += x.args[0].args
        else:
            out.append(x)
    return mk("call", (mk("list", tuple(out)),), ("numpy.concatenate", ()))


def number_factor(x):
    """(c, y): x is c times y, for a number c (which may have pi in it)."""
    if x.op != "rat" or x.data[1] or len(x.data[0]) != 1:
        return ONE, x
    (m, c), = x.data[0]
    c = tm.mkrat({tuple(f for f in m if f[0] == tm.PI.id): c})
    return c, div(x, c)


def n_linear(head, a, i):
    """What is linear in its i-th argument."""
    c, y = number_factor(a[i])
    if c is ONE:
        return None
    return mul(c, mk("call", tuple(a[:i]) + (y,) + tuple(a[i + 1:]),
                     (head, ())))


def n_sorted(x):
    if x.op in ("list", "tuple", "set") and all(is_str(a) for a in x.args):
        return mk("list", tuple(sorted(x.args, key=lambda a: a.data[1])))
    if x.op in ("list", "tuple", "set") and all(is_num(a) for a in x.args):
        return mk("list", tuple(sorted(x.args, key=num)))
    if x.op == "call" and x.data[0] in ("list", "tuple", "set"):
        return n_sorted(x.args[0])
    if x.op == "dict" and x.args[0] is ABSENT and all(
            is_str(k) for k in x.args[1::2]):
        return n_sorted(mk("list", x.args[1::2]))
    return mk("call", (x,), ("sorted", ()))


def n_diff(a):
    if len(a) == 2 and a[1] is ONE:
        a = a[:1]
    if len(a) != 1:
        return None
    x = a[0]
    if x.op == "ite" and not is_bool(x):
        return map_leaves(lambda y: n_diff([y]), x)
    if x.op in ("list", "tuple"):
        return mk("list", tuple(sub(q, p) for p, q in zip(x.args,
                                                          x.args[1:])))
    return n_linear("numpy.diff", [x], 0) or mk("call", (x,),
                                                ("numpy.diff", ()))


def count_like(t):
    """Sum and product of counts and positions: never negative."""
    if t.op == "call":
        return t.data[0] in ("len", "countif", "numpy.argmin",
                             "numpy.argmax", "numpy.ndim")
    if t.op == "rat":
        # (one less than a length: of the differences, as nothing else is
        # done to empty data)
        return not t.data[1] and all(
            c > 0 or c == -1 and not m for m, c in t.data[0]) and \
            all(count_like(x) for x in t.args)
    return is_num(t) and num(t) >= 0


def n_int(a):
    if len(a) != 1:
        return None
    x = a[0]
    if is_num(x):
        return const(int(num(x)))
    if x.op == "ite" and not is_bool(x):
        return map_leaves(lambda y: n_int([y]), x)
    if is_int(x):
        return x
    return mk("call", (x,), ("int", ()))


def n_float(a):
    if len(a) != 1:
        return None
    x = a[0]
    if x.op == "ite" and not is_bool(x):
        return map_leaves(lambda y: n_float([y]), x)
    if is_num(x) or x.op == "rat":
        return x
    if is_str(x):
        s = x.data[1].lower()
        if s in ("inf", "nan", "-inf"):
            return sym("float:" + s)
    return mk("call", (x,), ("float", ()))


def rebuild_call(t, args):
    name, kws = t.data
    if not kws:
        f = NORM.get(name)
        if f is not None:
            r = f(list(args))
            if r is not None:
                return r
    return _app("call", t.data, args)


def rebuild_call_atom(t, args):
    r = rebuild_call(t, args)
    return _truth(r)


# ----------------------------------------------------------- FUNCS (interp)
FUNCS = {}


def func(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def _norm_wrapper(name, f):
    def g(it, args, kwargs, e):
        fa = [it.rv(a) for a in args]
        fk = {k: it.rv(v) for k, v in sorted(kwargs.items())}
        fa, fk = bind_ext(name, fa, fk)
        if fk or any(a.op == "starred" for a in fa):
            return None
        return f(fa)
    return g


for _n, _f in list(NORM.items()):
    FUNCS[_n] = _norm_wrapper(_n, _f)


def _bool_wrapper(name):
    def g(it, args, kwargs, e):
        fa = [it.rv(a) for a in args]
        fk = {k: it.rv(v) for k, v in sorted(kwargs.items())}
        fa, fk = bind_ext(name, fa, fk)
        t = _app("call", (name, tuple(fk)), fa + list(fk.values()))
        it.event("extcall", name, (*fa, *fk.values()), e)
        return map_leaves(atom, t)
    return g


for _n in BOOL_FUNCS:
    if _n not in FUNCS:
        FUNCS[_n] = _bool_wrapper(_n)


@func("lal.CreateDict")
def f_lal_dict(it, args, kwargs, e):
    if args or kwargs:
        return None
    return it.new_dict({const("lal.CreateDict"): TRUE})


LAL_INSERT = "lalsimulation.SimInspiralWaveformParamsInsert"


def lal_insert(name):
    """Handler of the functions that set one entry of a LAL dictionary."""
    if not name.startswith(LAL_INSERT):
        return None

    def g(it, args, kwargs, e):
        if len(args) != 2 or kwargs:
            return None
        h = it.hobj(args[0])
        if h is None or h.kind != "dict":
            return None
        v = it.rv(args[1])
        it.event("extcall", name, (it.rv(args[0]), v), e)
        it.st.heap[args[0].id] = h.with_item(
            const(name[len(LAL_INSERT):]), v)
        it.taint_call(name)
        return ZERO
    return g


@func("print")
def f_print(it, args, kwargs, e):
    it.event("extcall", "print", [it.rv(a) for a in args], e)
    return NONE


@func("range")
def f_range(it, args, kwargs, e):
    a = [it.rv(x) for x in args]
    if len(a) == 1:
        a = [ZERO, a[0], ONE]
    elif len(a) == 2:
        a = a + [ONE]
    return _app("range", None, a)


@func("slice")
def f_slice(it, args, kwargs, e):
    if kwargs or not 1 <= len(args) <= 3:
        return None
    from .interp import mk_slice
    a = [it.rv(x) for x in args]
    if len(a) == 1:
        a = [NONE, a[0]]
    if len(a) == 2:
        a = a + [NONE]
    return mk_slice(*a)


@func("zip")
def f_zip(it, args, kwargs, e):
    if kwargs or any(a.op == "starred" for a in args):
        return None
    return mk("zipped", tuple(args))


@func("tqdm.tqdm")
def f_tqdm(it, args, kwargs, e):
    # a progress bar goes through the same elements
    return args[0] if len(args) == 1 and args[0].op != "starred" else None


@func("enumerate")
def f_enumerate(it, args, kwargs, e):
    st = kwargs.get("start", args[1] if len(args) > 1 else ZERO)
    return mk("enumerated", (args[0], it.rv(st)))


@func("reversed")
def f_reversed(it, args, kwargs, e):
    c = it.concrete_items(args[0])
    if c is not None:
        return mk("tuple", tuple(reversed(c)))
    return None


@func("list")
def f_list(it, args, kwargs, e):
    if not args:
        return it.new_list(mk("list"))
    v = args[0]
    if v.op == "ite" and not is_bool(v):
        return map_leaves(lambda x: f_list(it, [x], {}, e), v)
    c = it.concrete_items(v)
    if c is not None:
        return it.new_list(mk("list", tuple(c)))
    ci = it.cond_items(v)
    if ci is not None:
        parts = [ite(p, mk("list", (x,)), mk("list")) for p, x in ci]
        from .interp import mk_seq
        r = mk("list")
        for q in parts:
            r = mk_seq("concat", [r, q])
        return it.new_list(r)
    x = it.rv(v)
    if x.op in ("collect", "concat", "repeat", "list"):
        return it.new_list(x)
    if x.op == "call" and x.data[0] in ("list", "sorted"):
        return it.new_list(x)
    return it.new_list(mk("call", (x,), ("list", ())))


@func("tuple")
def f_tuple(it, args, kwargs, e):
    if not args:
        return mk("tuple")
    c = it.concrete_items(args[0])
    if c is not None:
        return mk("tuple", tuple(c))
    return None


@func("dict")
def f_dict(it, args, kwargs, e):
    d = it.new_dict()
    if args:
        v = args[0]
        c = it.concrete_items(v) if v.op in ("list", "tuple", "zipped",
                                             "dictitems") else None
        if v.op == "ref" and it.hobj(v).kind == "list":
            c = it.concrete_items(v)
        if c is not None and all(x.op == "tuple" and len(x.args) == 2
                                 for x in c):
            for x in c:
                it.store_key(d, it.rv(x.args[0]), x.args[1], e, fresh=True)
        elif v.op in ("zipped", "dictitems") or (
                v.op == "ref" and it.hobj(v).kind == "list"):
            if v.op == "dictitems":
                it.dict_update(d, v.args[0])
            else:
                it.run_for(v, lambda x: it.store_key(
                    d, it.rv(it.index(x, ZERO)), it.index(x, ONE), e,
                    fresh=True), lambda: None, e)
        else:
            it.dict_update(d, v)
    for k, v in kwargs.items():
        if k == "**":
            it.dict_update(d, v)
        else:
            it.store_key(d, const(k), v, e, fresh=True)
    return d


@func("dict.fromkeys")
def f_fromkeys(it, args, kwargs, e):
    if not 1 <= len(args) <= 2 or kwargs:
        return None
    c = it.concrete_items(args[0])
    if c is None:
        return None
    d = it.new_dict()
    for x in c:
        it.store_key(d, it.rv(x), args[1] if len(args) > 1 else NONE, e,
                     fresh=True)
    return d


@func("super", "object.__init__", "object.__new__")
def f_obj(it, args, kwargs, e):
    return NONE


@func("getattr")
def f_getattr(it, args, kwargs, e):
    n = it.rv(args[1])
    if n.op == "ite" and not is_bool(n):
        return map_leaves(lambda x: f_getattr(it, [args[0], x] + args[2:],
                                              kwargs, e), n)
    if not is_str(n):
        cs = names_here(it, n)
        if cs is None:
            return None
        r = f_getattr(it, [args[0], cs[-1][1]] + args[2:], kwargs, e)
        for c, m in cs[-2::-1]:
            r = ite(c, f_getattr(it, [args[0], m] + args[2:], kwargs, e), r)
        return r
    nm = n.data[1]
    if len(args) > 2:
        c = hasattr_cond(it, args[0], nm)
        return it.branch(c, lambda: it.getattr(args[0], nm, e),
                         lambda: args[2])
    return it.getattr(args[0], nm, e)


def names_here(it, n):
    """[(condition, name)] if the conditions that hold here leave only
    certain strings for a name built from a value."""
    if it.st.pc is TRUE:
        return None
    inner = {x.id for x in tm.walk(n)}
    found = {}
    for a in tm.bdd_atoms(it.st.pc).values():
        if a.op == "eq":
            for x, y in (a.args, a.args[::-1]):
                if is_str(y) and x.id in inner and not is_str(x):
                    found.setdefault(x, []).append((atom(a), y))
    for x, cs in found.items():
        if tm.band(it.st.pc, bnot(tm.bany(c for c, _ in cs))) is not FALSE:
            continue
        out = [(c, subst(n, {x.id: y})) for c, y in cs]
        if all(is_str(m) for _, m in out):
            return out
    return None


def hasattr_cond(it, o, nm):
    def f(o):
        h = it.hobj(o)
        from .interp import attr_key, unpy, Cls
        if h is not None:
            v = h.items.get(attr_key(nm))
            if v is not None:
                return map_leaves(lambda x: FALSE if x is ABSENT else TRUE,
                                  v)
            if h.kind == "inst" and h.cls is not None:
                if h.cls.find(nm) or h.cls.find_const(nm):
                    return TRUE
                if h.base is ABSENT and not h.cls.unknown_bases():
                    return FALSE
                return atom(mk("call", (it.rv(o), const(nm)),
                               ("hasattr", ())))
        p = unpy(o)
        if isinstance(p, Cls):
            if p.ci.find(nm) or p.ci.find_const(nm):
                return TRUE
        return atom(mk("call", (it.rv(o), const(nm)), ("hasattr", ())))
    return map_leaves(f, o)


@func("hasattr")
def f_hasattr(it, args, kwargs, e):
    n = it.rv(args[1])
    if not is_str(n):
        return None
    return hasattr_cond(it, args[0], n.data[1])


@func("setattr")
def f_setattr(it, args, kwargs, e):
    n = it.rv(args[1])
    if is_str(n):
        it.setattr(args[0], n.data[1], args[2], e)
        return NONE
    if n.op == "ite" and all(is_str(x) for x in leaves(n)):
        for leaf in leaves(n):
            c = map_leaves(lambda x: TRUE if x is leaf else FALSE, n)
            it.branch(c, lambda: it.setattr(args[0], leaf.data[1], args[2],
                                            e), lambda: None)
        return NONE
    it.event("setattr", "?", (args[0], n, args[2]), e)
    it.problems.append((it.where(e), "setattr with unknown name"))
    return NONE


@func("callable")
def f_callable(it, args, kwargs, e):
    from .interp import unpy
    if unpy(args[0]) is not None:
        return TRUE
    return map_leaves(lambda x: FALSE if x.op in ("const", "list", "tuple",
                                                  "fstr", "rat")
                      else atom(mk("call", (x,), ("callable", ()))),
                      it.rv(args[0]))


def copy_of(it, v, deep, e=None):
    """A fresh object with the contents of v."""
    from .interp import HObj
    if v.op == "ite" and not is_bool(v):
        return map_leaves(lambda x: copy_of(it, x, deep, e), v)
    if v.op in ("const", "pyobj", "absent", "undef"):
        return v
    h = it.hobj(v)
    if h is None:
        if v.op == "tuple":
            return mk("tuple", tuple(copy_of(it, a, deep, e)
                                     for a in v.args)) if deep else v
        base = v
        if it.own and deep:
            base = mk("call", (v,), ("copy.deepcopy", ()))
        return it.alloc(HObj("copy", base))
    if not deep:
        return it.alloc(HObj(h.kind, h.base, dict(h.items), h.cls))

    def sub_(x):
        if x.op == "ite" and not is_bool(x):
            return map_leaves(sub_, x)
        if x.op in ("list", "tuple", "concat"):
            return mk(x.op, tuple(sub_(a) for a in x.args), x.data)
        if it.hobj(x) is not None:
            return copy_of(it, x, True, e)
        if it.own and x.op not in ("const", "absent", "undef", "rat",
                                   "pyobj", "call"):
            return mk("call", (x,), ("copy.deepcopy", ()))
        return x
    kind = h.kind
    if kind == "obj" and v.op != "ref":
        kind = "copy"
    base = h.base
    if base is not ABSENT:
        base = sub_(base)
    return it.alloc(HObj(kind, base, {k: sub_(x) for k, x in
                                      h.items.items()}, h.cls))


@func("copy.deepcopy")
def f_deepcopy(it, args, kwargs, e):
    return copy_of(it, args[0], True, e)


@func("copy.copy")
def f_copy(it, args, kwargs, e):
    return copy_of(it, args[0], False, e)


@func("numpy.array", "numpy.copy")
def f_nparray(it, args, kwargs, e):
    from .interp import HObj
    if e is not None and len(args) in (1, 2) and not set(kwargs) - {
            "dtype"} and len(args) + len(kwargs) == 2:
        # an array read with another type of numbers
        x = it.rv(args[0])
        ty = it.rv(args[1] if len(args) == 2 else kwargs["dtype"])
        if ty.op == "extref" and x.op in ("rat", "index"):
            return _app("meth", ("astype", ()), [x, ty])
    if len(args) != 1:
        return None
    if set(kwargs) - {"copy"}:
        return None
    x = it.rv(args[0])

    def f(x):
        if x.op in ("list", "tuple", "concat", "repeat", "collect", "range",
                    "flat"):
            return mk("call", (x,), ("numpy.array", ()))
        return x
    v = map_leaves(f, x)
    if v.op == "ite":
        return v
    return it.alloc(HObj("copy", v))


def _fresh_array(name):
    def g(it, args, kwargs, e):
        from .interp import HObj
        fa = [it.rv(a) for a in args]
        fk = {k: it.rv(v) for k, v in sorted(kwargs.items())}
        fa, fk = bind_ext(name, fa, fk)
        t = _app("call", (name, tuple(fk)), fa + list(fk.values()))
        return it.alloc(HObj("copy", t))
    return g


for _n in ("numpy.zeros", "numpy.ones", "numpy.zeros_like",
           "numpy.ones_like", "numpy.full", "numpy.full_like",
           "numpy.empty", "numpy.empty_like"):
    FUNCS[_n] = _fresh_array(_n)


@func("numpy.where")
def f_where(it, args, kwargs, e):
    fa = [it.rv(a) for a in args]
    fa, fk = bind_ext("numpy.where", fa, {k: it.rv(v)
                                          for k, v in kwargs.items()})
    if fk:
        return None
    if len(fa) == 1:
        return mk("wheretuple", (n_where(fa[0]),))
    if len(fa) == 3:
        # the array with the selected elements replaced
        c, x, y = fa
        from .interp import store_term
        b = maskof(c)
        if b is not None and b not in (TRUE, FALSE):
            for arr, val, m in ((y, x, b), (x, y, bnot(b))):
                ls = leaves(arr)
                if is_num(val) and not any(is_num(x) for x in ls) and (
                        contains(m, {x.id for x in ls})
                        or len(ls) == 1 and arr.op == "rat" and all(
                            contains(m, {x.id}) for x in arr.args)):
                    return store_term(arr, m, val)
    return None


@func("numpy.nonzero")
def f_nonzero(it, args, kwargs, e):
    if len(args) == 1 and not kwargs:
        return mk("wheretuple", (n_where(it.rv(args[0])),))
    return None


@func("numpy.argwhere")
def f_argwhere(it, args, kwargs, e):
    return None


@func("functools.partial")
def f_partial(it, args, kwargs, e):
    from .interp import pyobj, Partial
    return pyobj(Partial(args[0], args[1:], dict(kwargs)))


@func("type")
def f_type(it, args, kwargs, e):
    from .interp import ext
    return None


@func("next")
def f_next(it, args, kwargs, e):
    return None


# ---------------------------------------------------------------- attributes
def attr(it, o, name):
    if o.op == "ite" and not is_bool(o):
        return map_leaves(lambda x: attr(it, x, name), o)
    if name == "size":
        return n_len(o)
    if name == "shape":
        return mk("call", (o,), ("numpy.shapeof", ()))
    if name in ("real", "imag"):
        return mk("call", (o,), ("numpy." + name, ()))
    if name == "T":
        return mk("call", (o,), ("numpy.transpose", ()))
    return mk("attr", (o,), name)


def enter(it, v):
    r = it.rv(v)
    if r.op == "call" and r.data[0] in _SELF_ENTER:
        return r
    return mk("call", (it.rv(v),), ("enter", ()))


# entering these gives the object itself
_SELF_ENTER = {"open", "h5py.File", "io.open",
               "matplotlib.backends.backend_pdf.PdfPages"}


# ------------------------------------------------------------------- methods
def _mut(it, name, o, args, e):
    it.event("mutate", name, (o, *args), e)


def m_list_append(it, o, h, args, kwargs, e):
    from .interp import mk_seq
    if not isinstance(e, _COMP):
        _mut(it, "append", o, args, e)
    nb = mk_seq("concat", [h.base, mk("list", (args[0],))])
    it.st.heap[o.id] = h.with_base(it.gated(nb, h.base))
    return NONE


import ast as _ast  # noqa: E402
_COMP = (_ast.ListComp, _ast.GeneratorExp, _ast.SetComp, _ast.DictComp)


def m_list_extend(it, o, h, args, kwargs, e):
    from .interp import mk_seq
    _mut(it, "extend", o, args, e)
    s = it.seq_of(args[0])
    if s is None:
        c = it.concrete_items(args[0])
        s = mk("list", tuple(c)) if c is not None else it.rv(args[0])
    if s.op == "tuple":
        s = mk("list", s.args)
    nb = mk_seq("concat", [h.base, s])
    it.st.heap[o.id] = h.with_base(it.gated(nb, h.base))
    return NONE


def m_list_insert(it, o, h, args, kwargs, e):
    from .interp import mk_seq
    _mut(it, "insert", o, args, e)
    i = it.rv(args[0])
    if i is ZERO:
        nb = mk_seq("concat", [mk("list", (args[1],)), h.base])
    elif h.base.op == "list" and is_num(i):
        a = list(h.base.args)
        a.insert(int(num(i)), args[1])
        nb = mk("list", tuple(a))
    else:
        nb = mk("call", (it.freeze_term(h.base), i, it.rv(args[1])),
                ("listinsert", ()))
    it.st.heap[o.id] = h.with_base(it.gated(nb, h.base))
    return NONE


def m_list_pop(it, o, h, args, kwargs, e):
    _mut(it, "pop", o, args, e)
    i = it.rv(args[0]) if args else const(-1)
    if h.base.op == "list" and is_num(i) and \
            -len(h.base.args) <= num(i) < len(h.base.args):
        a = list(h.base.args)
        v = a.pop(int(num(i)))
        it.st.heap[o.id] = h.with_base(it.gated(mk("list", tuple(a)),
                                                h.base))
        return v
    v = it.list_index(h.base, i)
    nb = mk("call", (it.freeze_term(h.base), i), ("listdel", ()))
    it.st.heap[o.id] = h.with_base(it.gated(nb, h.base))
    return v


def m_list_remove(it, o, h, args, kwargs, e):
    _mut(it, "remove", o, args, e)
    x = it.rv(args[0])
    if h.base.op == "list" and x in h.base.args:
        a = list(h.base.args)
        a.remove(x)
        nb = mk("list", tuple(a))
    else:
        nb = mk("call", (it.freeze_term(h.base), x), ("listremove", ()))
    it.st.heap[o.id] = h.with_base(it.gated(nb, h.base))
    return NONE


def m_list_sort(it, o, h, args, kwargs, e):
    _mut(it, "sort", o, args, e)
    if kwargs:
        nb = mk("call", (it.freeze_term(h.base), *[
            it.rv(v) for _, v in sorted(kwargs.items())]),
            ("sorted", tuple(sorted(kwargs))))
    else:
        nb = n_sorted(it.freeze_term(h.base))
    it.st.heap[o.id] = h.with_base(it.gated(nb, h.base))
    return NONE


def m_list_reverse(it, o, h, args, kwargs, e):
    _mut(it, "reverse", o, args, e)
    nb = mk("list", tuple(reversed(h.base.args))) if h.base.op == "list" \
        else mk("call", (it.freeze_term(h.base),), ("reversed", ()))
    it.st.heap[o.id] = h.with_base(it.gated(nb, h.base))
    return NONE


def m_list_clear(it, o, h, args, kwargs, e):
    _mut(it, "clear", o, args, e)
    it.st.heap[o.id] = h.with_base(it.gated(mk("list"), h.base))
    return NONE


def m_list_copy(it, o, h, args, kwargs, e):
    return copy_of(it, o, False, e)


def m_dict_get(it, o, h, args, kwargs, e):
    k = it.rv(args[0])
    d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
    c = it.contains(k, o)
    if c is FALSE:
        return d
    v = it.index(o, k, e)
    return ite(c, v, d)


def m_dict_pop(it, o, h, args, kwargs, e):
    from .interp import HObj
    _mut(it, "pop", o, args, e)
    k = it.rv(args[0])
    c = it.contains(k, o)
    v = it.index(o, k, e) if c is not FALSE else mk("keyerror", (k,))
    if len(args) > 1:
        v = ite(c, v, args[1])
    h = it.hobj(o)
    old = h.items.get(k)
    if old is None:
        old = it.base_get(HObj("dict", h.base, h.items), k)
    it.st.heap[o.id] = h.with_item(k, it.gated(ABSENT, old))
    return v


def m_dict_update(it, o, h, args, kwargs, e):
    _mut(it, "update", o, args + list(kwargs.values()), e)
    for a in args:
        c = None
        if a.op == "list" or (a.op == "ref" and it.hobj(a).kind == "list"):
            c = f_dict(it, [a], {}, e)
        it.dict_update(o, c if c is not None else a, e)
    for k, v in kwargs.items():
        if k == "**":
            it.dict_update(o, v, e)
        else:
            it.store_key(o, const(k), v, e, fresh=True)
    return NONE


def m_dict_items(it, o, h, args, kwargs, e):
    return mk("dictitems", (o,))


def m_dict_keys(it, o, h, args, kwargs, e):
    return o


def m_dict_values(it, o, h, args, kwargs, e):
    return mk("dictvalues", (o,))


def m_dict_setdefault(it, o, h, args, kwargs, e):
    k = it.rv(args[0])
    d = args[1] if len(args) > 1 else NONE
    c = it.contains(k, o)
    it.branch(c, lambda: None, lambda: it.store_key(o, k, d, e))
    return it.index(o, k, e)


def m_dict_copy(it, o, h, args, kwargs, e):
    return copy_of(it, o, False, e)


def m_dict_clear(it, o, h, args, kwargs, e):
    from .interp import HObj
    _mut(it, "clear", o, args, e)
    it.st.heap[o.id] = HObj("dict")
    return NONE


m_copy_get, m_copy_pop, m_copy_update = m_dict_get, m_dict_pop, m_dict_update
m_copy_items, m_copy_keys, m_copy_values = (m_dict_items, m_dict_keys,
                                            m_dict_values)
m_copy_copy, m_copy_setdefault = m_dict_copy, m_dict_setdefault


# methods of unknown values
def m_any_error(it, o, args, kwargs, e, src):
    if o.op == "call" and o.data[0] == "argparse.ArgumentParser":
        it.do_raise("SystemExit", e)
        return NONE
    return None


def m_any_keys(it, o, args, kwargs, e, src):
    return src if src is not None else o


def m_any_items(it, o, args, kwargs, e, src):
    return mk("dictitems", (src if src is not None else o,))


def m_any_values(it, o, args, kwargs, e, src):
    return mk("dictvalues", (src if src is not None else o,))


def m_any_get(it, o, args, kwargs, e, src):
    if not args or len(args) > 2:
        return None
    k = it.rv(args[0])
    d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
    if o.op in ("attr", "call", "apply", "meth") and not is_str(k) and not (
            o.op == "call" and it.repo.full_items(o.data[0])):
        return None
    c = it.contains(k, o)
    return ite(c, it.index(o, k, e), d)


def m_any_copy(it, o, args, kwargs, e, src):
    return copy_of(it, src if src is not None else o, False, e)


def m_any_assign(it, o, args, kwargs, e, src):
    """DataFrame.assign: a copy with further columns."""
    if args or "**" in kwargs or o.op == "const" or any(
            v.op in ("lambda", "fnref", "boundref") or it.hobj(v) is not None
            for v in kwargs.values()):
        return None
    t = copy_of(it, src if src is not None else o, False, e)
    if it.hobj(t) is None:
        return None
    for k, v in kwargs.items():
        it.store_key(t, const(k), v, e)
    return t


def m_any_update(it, o, args, kwargs, e, src):
    t = src if src is not None else o
    if t.op in ("const", "undef"):
        return None
    return m_dict_update(it, t, it.hobj(t), args, kwargs, e)


def m_any_pop(it, o, args, kwargs, e, src):
    t = src if src is not None else o
    _mut(it, "pop", t, args, e)
    return None


def m_any_setdefault(it, o, args, kwargs, e, src):
    t = src if src is not None else o
    return m_dict_setdefault(it, t, it.hobj(t), args, kwargs, e)


def m_any_append(it, o, args, kwargs, e, src):
    from .interp import HObj, mk_seq
    t = src if src is not None else o
    _mut(it, "append", t, args, e)
    h = it.hobj(t) or HObj("obj", t)
    b = it.rv(t)
    nb = mk_seq("concat", [b, mk("list", (args[0],))])
    it.st.heap[t.id] = HObj(h.kind, it.gated(nb, b), {}, h.cls)
    return NONE


def m_any_extend(it, o, args, kwargs, e, src):
    from .interp import HObj, mk_seq
    t = src if src is not None else o
    _mut(it, "extend", t, args, e)
    h = it.hobj(t) or HObj("obj", t)
    b = it.rv(t)
    nb = mk_seq("concat", [b, it.rv(args[0])])
    it.st.heap[t.id] = HObj(h.kind, it.gated(nb, b), {}, h.cls)
    return NONE


def _mut_any(name):
    def g(it, o, args, kwargs, e, src):
        _mut(it, name, src if src is not None else o, args, e)
        return None
    return g


for _n in ("sort", "insert", "remove", "clear", "fill", "resize", "put",
           "reverse", "itemset", "setflags"):
    globals()["m_any_" + _n] = _mut_any(_n)


def _arr(name):
    def g(it, o, args, kwargs, e, src):
        f = FUNCS.get("numpy." + name)
        if f is None:
            return it.call_ext("numpy." + name, [o] + list(args), kwargs, e)
        r = f(it, [o] + list(args), dict(kwargs), e)
        if r is None:
            return it.call_ext("numpy." + name, [o] + list(args), kwargs, e)
        return r
    return g


for _n in ("max", "min", "sum", "mean", "argmin", "argmax", "any", "all",
           "cumsum", "conj", "argsort", "std", "real", "imag"):
    globals()["m_any_" + _n] = _arr(_n)
m_any_conjugate = _arr("conj")


def m_any_flatten(it, o, args, kwargs, e, src):
    return None


# strings
def _strfold(name):
    def g(it, o, args, kwargs, e, src):
        if not is_str(o) or kwargs:
            return None
        fa = [it.rv(a) for a in args]
        if not all(a.op == "const" and a.data[0] in ("str", "num")
                   for a in fa):
            return None
        try:
            r = getattr(o.data[1], name)(*[pyval(a) for a in fa])
        except Exception:
            return None
        if isinstance(r, list):
            return it.new_list(mk("list", tuple(const(x) for x in r)))
        return const(r)
    return g


for _n in ("split", "rsplit", "lower", "upper", "strip", "lstrip", "rstrip",
           "startswith", "endswith", "replace", "title", "capitalize",
           "splitlines", "isdigit", "find"):
    globals()["m_any_" + _n] = _strfold(_n)


def m_any_join(it, o, args, kwargs, e, src):
    from .interp import fstr
    if len(args) != 1:
        return None
    c = it.concrete_items(args[0])
    if c is None:
        return None
    parts = []
    for i, x in enumerate(c):
        if i:
            parts.append(o)
        parts.append(it.rv(x))
    return fstr(parts)


def m_any_format(it, o, args, kwargs, e, src):
    return None


def m_any___init__(it, o, args, kwargs, e, src):
    return None


tm.register_rebuild("any", lambda t, a: t_any(a[0], a[1], t.data))
tm.register_rebuild("atom:any", lambda t, a: t_any(a[0], a[1], t.data))
tm.register_rebuild("atom:call", rebuild_call_atom)
tm.register_rebuild("whereidx", lambda t, a: n_where(a[0]))
