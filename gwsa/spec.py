"""Reference definitions and the obligations derived from them.

A reference definition is a Python function in gwsa/specs/*.py marked with

    @of("module:qualname", "E01 E05", raises="E06", attrs={...}, ...)

It is *never executed*: it is read by the same evaluator as the code of the
package, and the values that a caller can observe (returned value, conditions
under which an exception is raised, attributes, arguments of selected calls)
are compared.
"""
import ast
import os
import resource
import signal
import threading
import time
from .terms import *  # noqa: F401,F403
from . import terms as tm
from .model import (ModuleInfo, FuncInfo, ClassInfo, AnalysisBroken)
from .run import analyse
from . import effects
from .interp import Unsupported, t_index, attr_key, HObj, Event, joined
from .compare import Comparer, KEYS_OF

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs")


class Spec:
    def __init__(self, target, node, module, props, opts):
        self.target, self.node, self.module = target, node, module
        self.props, self.opts = props, opts

    def all_props(self):
        out = set(self.props)
        for v in self.opts.get("_obs", {}).values():
            out |= set(v)
        return out


def load_specs(repo):
    specs, mods = [], []
    for f in sorted(os.listdir(HERE)):
        if not f.endswith(".py") or f == "__init__.py":
            continue
        m = ModuleInfo(repo, "gwspec." + f[:-3], os.path.join(HERE, f), False)
        m.relpath = "gwsa/specs/" + f
        mods.append(m)
        for s in m.tree.body:
            if not isinstance(s, ast.FunctionDef):
                continue
            for d in s.decorator_list:
                if isinstance(d, ast.Call) and getattr(
                        d.func, "id", "") == "of":
                    a = [ast.literal_eval(x) for x in d.args]
                    k = {x.arg: ast.literal_eval(x.value)
                         for x in d.keywords}
                    props = a[1].split() if len(a) > 1 else []
                    obs = {}
                    for key in ("raises", "ret"):
                        if key in k:
                            obs[key] = k.pop(key).split()
                    for key, v in k.pop("attrs", {}).items():
                        obs["attr:" + key] = v.split()
                    for key, v in k.pop("calls", {}).items():
                        obs["calls:" + key] = v.split()
                    for key, v in k.pop("mut", {}).items():
                        obs["arg:" + key] = v.split()
                    for key, v in k.pop("keys", {}).items():
                        obs["key:" + key] = v.split()
                    k["_obs"] = obs
                    specs.append(Spec(a[0], s, m, props, k))
    return specs


def resolve_target(repo, target):
    mod, q = target.split(":")
    return repo.func("" if mod == "." else mod, q)


def family(repo, ci):
    """Classes related to ci by inheritance."""
    out = []
    for m in repo.modules.values():
        for c in m.classes.values():
            if ci in c.mro() or c in ci.mro():
                out.append(c)
    return out


def fkey(repo, fi):
    return fi.module.name.replace(repo.package + ".", "", 1) + ":" + fi.qual


# functions that only talk to the user
ALWAYS = ("utils:debug_message", "plot_settings:use_fancy_plotsettings",
          "eccDefinition:eccDefinition.make_diagnostic_plots",
          "eccDefinition:eccDefinition.save_debug_fig",
          "eccDefinition:eccDefinition._plot_debug_segment")
# arguments that only enter messages
NEUTRAL = {
    "fn:debug_message": {"message", "point_to_verbose_output"},
    "m:FindExtremaNearIdxRef": {"plot_info", "pp", "verbose"},
    "m:check_monotonicity_of_omega_gw_average": {"data_name"},
    "fn:check_kwargs_and_set_defaults": {"name", "location"},
    "fn:raise_exception_if_none": {"name", "location"},
    "fn:load_callable": {"arg_name"},
    "fn:parse_json_dict": {"arg_name"},
    "m:drop_extrema_if_extrema_jumps": {"extrema_type"},
    "m:drop_extrema_if_too_close": {"extrema_type"},
    "m:check_num_extrema": {"extrema_type"},
    "m:check_if_dropped_too_many_extrema": {"extrema_type"},
    "m:check_extrema_separation": {"extrema_type"},
}


def spec_boundaries(repo, spec, cls):
    """Functions of the package that the reference refers to."""
    out, missing = set(), []
    fam = family(repo, cls) if cls is not None else []
    todo, seen = [spec.node], set()
    while todo:
        node = todo.pop()
        if id(node) in seen:
            continue
        seen.add(id(node))
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = spec.module.resolve(n.id)
                if isinstance(r, FuncInfo):
                    if r.module is spec.module:
                        todo.append(r.node)
                    else:
                        out.add(fkey(repo, r))
                elif isinstance(r, ClassInfo) and r.module is not \
                        spec.module:
                    out.add("cls:" + r.name)
                elif r is None and n.id in spec.module.imports:
                    missing.append(n.id)
            elif isinstance(n, ast.Attribute):
                b = n.value
                if (isinstance(b, ast.Name) and b.id == "self") or (
                        isinstance(b, ast.Call) and isinstance(
                            b.func, ast.Name) and b.func.id == "super"):
                    hit = False
                    for c in fam:
                        if n.attr in c.methods:
                            out.add(fkey(repo, c.methods[n.attr]))
                            hit = True
                    if not hit and is_called(node, n) and \
                            cls is not None and n.attr not in \
                            spec.opts.get("dynamic", ()) and \
                            n.attr not in state_names(repo, fam):
                        missing.append("self." + n.attr)
                r = spec.module.resolve_expr(n)
                if isinstance(r, FuncInfo) and r.module is not spec.module:
                    out.add(fkey(repo, r))
                # methods of other classes of the package
                elif isinstance(b, ast.Name) and isinstance(
                        spec.module.resolve(b.id), ClassInfo):
                    f = spec.module.resolve(b.id).find(n.attr)
                    if f is not None:
                        out.add(fkey(repo, f))
    for k in ALWAYS + tuple(spec.opts.get("boundaries", ())):
        out.add(k)
    for k in spec.opts.get("inline", ()):
        out.discard(k)
    return out, missing


def state_names(repo, fam):
    """Attributes of self that some method of the family sets."""
    out = set()
    for c in fam:
        for f in c.methods.values():
            out |= effects._direct(repo, f)[1]
    return out


def is_called(root, attr):
    for n in ast.walk(root):
        if isinstance(n, ast.Call) and n.func is attr:
            return True
    return False


class Outcome:
    """Result of one obligation."""

    def __init__(self, spec, obs, status, detail="", where="", props=None):
        self.spec, self.obs, self.status = spec, obs, status
        self.detail, self.where, self.props = detail, where, props


def positional_args(spec_fn, impl_fn, is_method):
    a = [x.arg for x in spec_fn.args.posonlyargs + spec_fn.args.args]
    b = [x.arg for x in impl_fn.args.posonlyargs + impl_fn.args.args]
    return a, b


def default_of(fn, name):
    a = fn.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == name:
            return d
    return None


def changed_defaults(spec, fi):
    """Parameters whose default is spelled differently in the code:
    [(name in the reference, its default, name in the code, its default)].
    A parameter that has become mandatory is none of them."""
    sa, ia = positional_args(spec.node, fi.node, fi.cls is not None)
    pairs = list(zip(sa, ia))
    pairs += [(x.arg, x.arg) for x in spec.node.args.kwonlyargs]
    out = []
    for n, m in pairs:
        d, e = default_of(spec.node, n), default_of(fi.node, m)
        if d is None or e is None or ast.dump(d) == ast.dump(e):
            continue
        out.append((n, d, m, e))
    return out


def run_spec(repo, spec, inline=(), omitted=None):
    """Analyse reference and code; return (spec result, impl result).

    `omitted`: an entry of changed_defaults; the parameter then has its own
    default in each."""
    fi = resolve_target(repo, spec.target)
    cls = fi.cls
    if "cls" in spec.opts:
        mod, c = spec.opts["cls"].split(":")
        cls = repo.cls(mod, c)
    bnd, missing = spec_boundaries(repo, spec, cls)
    bnd.discard(fkey(repo, fi)) if fkey(repo, fi) in bnd and False else None
    if missing:
        raise Unsupported("the package has no " + ", ".join(sorted(set(
            missing))))
    sfi = FuncInfo(spec.node, spec.module, fi.cls, spec.node.name)
    flags = {k: const(v) for k, v in spec.opts.get("flags", {}).items()}
    selfattrs = {k: const(v) for k, v in
                 spec.opts.get("state", {}).items()}
    sa, ia = positional_args(spec.node, fi.node, fi.cls is not None)
    sargs = {n: flags[n] for n in sa if n in flags}
    iargs = {}
    for i, n in enumerate(ia):
        if i < len(sa):
            iargs[n] = flags.get(sa[i], sym(sa[i]))
        elif n in flags:
            iargs[n] = flags[n]
    # parameters that only the code has take their default value
    nd = len(fi.node.args.defaults)
    extra = ia[len(sa):]
    for n in extra:
        if n in iargs:
            continue
        j = ia.index(n) - (len(ia) - nd)
        if j < 0:
            raise Unsupported(f"{spec.target} has a new mandatory "
                              f"parameter {n}")
        d = fi.node.args.defaults[j]
        iargs[n] = (lambda dd: lambda it: it.eval_default(fi, dd))(d)
    for x, d in zip(fi.node.args.kwonlyargs, fi.node.args.kw_defaults):
        if x.arg in flags:
            iargs[x.arg] = flags[x.arg]
    if len(ia) < len(sa):
        raise Unsupported(f"{spec.target} lost parameter "
                          f"{sa[len(ia):]}")
    if omitted:
        n, d, m, e = omitted
        if n in flags:
            raise Unsupported("fixed parameter")
        sargs[n] = lambda it: it.eval_default(sfi, d)
        iargs[m] = lambda it: it.eval_default(fi, e)
    if fi.node.args.kwarg and spec.node.args.kwarg:
        iargs["**"] = sym(spec.node.args.kwarg.arg)
    bnd.discard(spec.target) if spec.target in ALWAYS else None
    # parameters that are on or off
    yesno = {sym(n).id for n, d in zip(
        sa[len(ia) - nd:], fi.node.args.defaults[:max(
            0, len(sa) - len(ia) + nd)])
             if isinstance(d, ast.Constant) and isinstance(d.value, bool)}
    lengths = {}
    for _ in range(3):
        n = len(lengths)
        o = {"neutral": NEUTRAL, "inline": inline, "known_len": lengths,
             "yesno": yesno}
        r1 = analyse(repo, sfi, bnd, args=sargs, cls=cls,
                     self_attrs=selfattrs, opts=o)
        r2 = analyse(repo, fi, bnd, args=iargs, cls=cls,
                     self_attrs=selfattrs, opts=o)
        if len(lengths) == n:
            break
    return fi, r1, r2, sa, ia


def observables(spec, r1, r2, sa, ia):
    """[(label, reference value, code value, care)]"""
    out = []
    obs = spec.opts["_obs"]
    props = spec.props
    only = spec.opts.get("only")
    care = band(r1.out, r2.out)

    def want(label):
        if label in obs:
            return obs[label]
        if only is not None and label.split(":")[0] not in only and \
                label not in only:
            return []
        return props
    skip = set(spec.opts.get("skip", ()))
    if "ret" not in skip and want("ret"):
        out.append(("ret", want("ret"), r1.ret, r2.ret, care))
    if "raises" not in skip and want("raises"):
        # (a check made for each element that concerns none of them may as
        # well be made once)
        idle = bany(x for r in (r1, r2) for x in r.it.idle
                    if not any(y.op in ("idx", "bv") for y in walk(x)))
        out.append(("raises", want("raises"), r1.raises(), r2.raises(),
                    bnot(idle)))
    for k in [k for k in obs if k.startswith("key:")]:
        c = const(int(k[4:]) if k[4:].isdigit() else k[4:])
        out.append((k, obs[k], t_index(r1.ret, c), t_index(r2.ret, c), care))
    if r1.self_ref is not None and "attrs" not in skip:
        a1, a2 = r1.attrs(), r2.attrs()
        direct = {e.name for e in r1.events if e.kind == "setattr"}
        direct |= r1.inner_attrs()
        for n, v in a1.items():
            if n not in direct and "attr:" + n not in obs:
                continue
            if "attr:" + n in skip:
                continue
            w = want("attr:" + n)
            if not w:
                continue
            v2 = a2.get(n)
            if v2 is None:
                v2 = mk("attr", (sym("self"),), n)
            out.append(("attr:" + n, w, v, v2, care))
        d1, d2 = ([e for e in r.events
                   if e.kind == "setattr" and e.name == "?"]
                  for r in (r1, r2))
        if (d1 or d2) and want("attr:?"):
            # attributes set under names that are data
            un = [call_term([Event(e.kind, e.guard, e.name, e.args[1:], "",
                                   0) for e in d]) for d in (d1, d2)]
            out.append(("attr:?", want("attr:?"), un[0], un[1], TRUE))
    for k in [k for k in obs if k.startswith("arg:")]:
        n = k[4:]
        i = sa.index(n)
        v1 = r1.it.freeze(sym(n) if n not in r1.args else r1.args[n])
        v2 = r2.it.freeze(r2.args[ia[i]])
        out.append((k, obs[k], v1, v2, care))
    for k in [k for k in obs if k.startswith("calls:")]:
        head = k[6:]
        e1, e2 = r1.calls(head), r2.calls(head)
        if not e1:
            raise AnalysisBroken(f"the reference of {spec.target} never "
                                 f"calls {head}")
        if head in ("warnings.warn", "print"):
            # what is said is free, when something is said is not
            out.append((k, obs[k], bany(e.guard for e in e1),
                        bany(e.guard for e in e2), TRUE))
            continue
        un = head in spec.opts.get("unordered", ())
        out.append((k, obs[k], call_term(e1, un), call_term(e2, un), TRUE))
    return out


def call_term(evs, unordered=False):
    """Effectful calls with their conditions, in order."""
    parts = []
    if not unordered:
        evs = joined([e.copy() for e in evs])
    for e in evs:
        a = tuple(e.args)
        if e.kws:
            a += tuple(const(k) for k in e.kws)
        parts.append(ite(e.guard, mk("tuple", a), NONE))
    if unordered:
        parts.sort(key=lambda t: t.id)
        return mk("list", tuple(parts))
    return mk("list", tuple(parts))


_STRUCT = {"loop", "loopout", "collect", "dcollect", "flat", "sum", "any",
           "first", "loopany", "loopfirst", "each", "eachloop", "lambda",
           "concat", "repeat"}


def heads(t, seen=None):
    out = set()
    for x in walk(t, seen):
        if x.op in ("call", "meth"):
            out.add((x.op, x.data[0]))
        elif x.op == "extref":
            out.add(("ext", x.data))
        elif x.op == "attr":
            out.add(("attr", x.data))
        elif x.op in ("const", "sym", "rat", "ite", "bv", "slice", "index",
                      "tuple", "list", "absent"):
            continue
        else:
            out.add(("op", x.op))
    return out


KNOWN_OPS = {"leftover", "dict", "inst", "instof", "eq", "eq0", "lt0", "isnone", "in",
             "truth", "whereidx", "wheretuple", "fstr", "fnref", "boundref",
             "clsref", "partial", "paren", "pow", "dstore", "dunion",
             "keyerror", "set", "setof", "setdiff", "setunion", "keysof",
             "range", "apply", "div0", "fmt", "indexerror", "missingarg",
             "raises", "exc", "handles"}
KNOWN_CALLS = {"id", 
    "len", "numpy.abs", "numpy.max", "numpy.min", "max", "min", "int",
    "float", "numpy.argmin", "numpy.argmax", "numpy.diff", "numpy.mean",
    "numpy.sum", "numpy.median", "numpy.sin", "numpy.cos", "numpy.tan",
    "numpy.exp", "numpy.log", "numpy.log10", "numpy.arctan2",
    "numpy.arcsin", "numpy.arccos", "numpy.arctan", "numpy.unwrap",
    "numpy.angle", "numpy.real", "numpy.imag", "numpy.conj", "numpy.cumsum",
    "numpy.searchsorted", "numpy.interp", "numpy.append",
    "numpy.concatenate", "numpy.arange", "numpy.linspace", "numpy.sign",
    "numpy.floor", "numpy.ceil", "numpy.round", "round", "numpy.gradient",
    "numpy.any", "numpy.all", "numpy.allclose", "numpy.isnan",
    "numpy.argsort", "sorted", "numpy.sort", "numpy.array", "numpy.zeros",
    "numpy.ones", "numpy.zeros_like", "numpy.ones_like", "mod", "floordiv",
    "isinstance", "callable", "hasattr", "numpy.clip", "numpy.isclose",
    "numpy.maximum", "numpy.minimum", "numpy.unique", "numpy.flip",
    "numpy.ndim", "numpy.nanmax", "numpy.nanmin", "countif", "list",
    "tuple", "str", "bool", "numpy.isfinite", "numpy.linalg.norm",
    "numpy.linalg.inv", "numpy.std", "numpy.trunc", "numpy.degrees",
    "numpy.radians", "numpy.deg2rad", "numpy.rad2deg", "numpy.reshape",
    "numpy.ravel", "numpy.nanargmin", "numpy.nanargmax", "numpy.roll",
    "numpy.full", "numpy.full_like", "numpy.empty", "numpy.atleast_1d",
    "numpy.shapeof", "reversed", "numpy.percentile", "numpy.average",
    "numpy.square", "numpy.cbrt", "numpy.hypot", "numpy.float64",
    "numpy.nanmean", "numpy.ptp", "numpy.prod", "listdel", "listinsert",
    "listremove", "abs", "sum", "numpy.argwhere", "numpy.nonzero",
    "numpy.logical_and", "numpy.logical_or", "numpy.logical_not",
    "numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide",
    "numpy.where", "numpy.copy", "numpy.full", "numpy.repeat", "numpy.tile",
    "numpy.array_equal", "numpy.isin", "numpy.power", "set", "dict",
    "frozenset", "type", "numpy.size", "numpy.nansum", "numpy.nanmedian",
    "numpy.trapz", "numpy.polyval", "numpy.polyfit", "numpy.cross",
    "numpy.dot", "numpy.fabs", "numpy.absolute", "math.floor", "math.ceil",
    "math.fabs", "math.sqrt", "any", "all", "zip", "enumerate", "range",
    "numpy.count_nonzero", "numpy.int64", "numpy.delete", "numpy.insert",
}


class Vocabulary:
    """Heads with a fixed meaning: those of the references plus a list of
    well-known library functions.  A difference that involves anything else
    is not decided."""

    def __init__(self):
        self.h = {("op", o) for o in KNOWN_OPS}
        self.h |= {("call", c) for c in KNOWN_CALLS}

    def add(self, t):
        self.h |= heads(t)

    def unknown(self, t, spec_t, repo):
        out = []
        allowed = heads(spec_t)
        for h in heads(t) - self.h - allowed:
            k, n = h
            if k == "call" and (n.startswith("m:") or n.startswith("fn:")
                                or n.startswith("cls:")):
                continue
            if k == "attr" or k == "meth":
                continue
            out.append(n)
        return out


def shape(t):
    """Multiset of loop-like structure in a term."""
    out = {}
    for x in walk(t):
        if x.op in _STRUCT:
            out[x.op] = out.get(x.op, 0) + 1
    return out


def own_shape(t, other):
    """Loop-like structure of a term outside of what the other one has."""
    known = {x.id for x in walk(other)}
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x.id in seen or x.id in known:
            continue
        seen.add(x.id)
        if x.op in _STRUCT:
            out[x.op] = out.get(x.op, 0) + 1
        st += x.args
    return out


def repeated(t):
    """Is the value that of a while loop around a function of the package?"""
    if t.op != "loopout" or t.args[0].op != "loop" or \
            t.args[0].args[0] is not NONE:
        return False
    return any(x.op == "call" and x.data[0].startswith("fn:")
               for a in t.args[0].args[1 + t.args[0].data[0]:]
               for x in walk(a))


def fewer_calls(a, b):
    """Are the calls b those of a, in order, with some left out?"""
    if a.op != "list" or b.op != "list" or len(b.args) >= len(a.args):
        return False
    it = iter(a.args)
    return all(any(x is y for x in it) for y in b.args)


def skeleton(t):
    """Set of loop-like constructs of a term with what is nested in them."""
    memo = {}

    def rec(x):
        if x.id in memo:
            return memo[x.id]
        memo[x.id] = frozenset()
        inner = frozenset().union(*(rec(a) for a in x.args)) \
            if x.args else frozenset()
        if x.op in _STRUCT:
            depth = hash((x.op, len(x.args), inner))
            inner = inner | {(x.op, depth)}
        memo[x.id] = inner
        return inner
    return rec(t)


LOOPS = {"loop", "loopout", "flat", "loopany", "loopfirst", "lambda",
         "eachloop", "each"}


def filtered(t):
    """Does the value contain a selection made element by element?"""
    for x in walk(t):
        if x.op in ("collect", "dcollect") and len(x.args) > 1 and \
                x.args[1] is not TRUE:
            return True
    return False


def filled_like(a, b):
    """np.ones_like(x) and np.ones(len(x)): the same but for the type of
    the elements, which is the same too when x holds floats."""
    if a.op != "call" or b.op != "call" or len(a.args) != 1 or \
            len(b.args) != 1 or a.data[0] != b.data[0] + "_like" or \
            a.data[0] not in ("numpy.ones_like", "numpy.zeros_like"):
        return False
    x, n = a.args[0], b.args[0]
    return x.op in ("sym", "attr") and (
        n.op == "call" and n.data[0] == "len" and n.args[0] is x
        or n.op == "attr" and n.data in ("shape", "size")
        and n.args[0] is x)


def rearranged(a, b):
    """Is b the sequence a put in order of a key?"""
    return b.op == "call" and b.data[0] == "sorted" and b.args[0] is a and \
        all(x.op == "lambda" and x.args[0].op == "index" and
            x.args[0].args[0].op == "bv" and x.args[0].args[1].op == "const"
            for x in b.args[1:])


def judge(d, vocab, repo, whole=None):
    """'violation' or 'undecided' for one difference.

    Unequal normal forms of the same structure are different values; a
    difference in the structure itself (another kind of loop, a construct
    the analysis gives no meaning to) may be another way to write the same
    thing and is not decided."""
    s, i = d.spec, d.impl
    hs = {x.op for x in walk(s)}
    for x in walk(i):
        if x.op in ("opaque", "bigmul"):
            return "undecided", f"value not modelled ({x.data})"
    if hs & {"opaque", "bigmul"}:
        return "undecided", "reference not modelled"
    if "limit" in d.path:
        return "undecided", "comparison limit reached"
    if filled_like(s, i) or filled_like(i, s):
        return "undecided", "element type of a fresh array"
    for x in walk(i):
        # a name or argument that is not there on this path
        if x.op in ("unboundname", "undef", "missingarg") and \
                x.op not in hs:
            return "violation", ""
    bad = vocab.unknown(i, s, repo)
    if "part" in d.path and not bad:
        return "violation", ""
    if set(bad) <= {"lambda"} and (rearranged(s, i) or rearranged(i, s)):
        return "violation", ""
    ss, si = shape(s), shape(i)
    if bad and not (set(bad) <= _STRUCT and not ss and not (
            set(si) & LOOPS) and filtered(i)):
        return "undecided", "uses " + ", ".join(map(str, sorted(set(bad))))
    if ss == si:
        return "violation", ""
    if whole is not None and shape(whole[0]) == shape(whole[1]):
        return "violation", ""
    if skeleton(s) == skeleton(i):
        return "violation", ""
    if whole is not None and skeleton(whole[0]) == skeleton(whole[1]):
        return "violation", ""
    if whole is not None and fewer_calls(*whole):
        return "violation", ""
    if not ss and filtered(i) and not (set(si) & LOOPS):
        return "violation", ""
    own = [own_shape(a, b) for a, b in ((s, i), (i, s))]
    if set(own[0]) == {"lambda"} and not own[1] and not bad:
        # the element picked out by a key, and one at a fixed place, of the
        # same sequence
        return "violation", ""
    if not bad and not own[1] and repeated(s):
        # made again until it will do, and made once
        return "violation", ""
    if (set(ss) | set(si)) & LOOPS:
        return "undecided", "loop structure differs"
    if set(ss) != set(si):
        return "undecided", "loop structure differs"
    return "violation", ""


def locate(t, locs, default, spec_t=None):
    """Best source position for a differing value of the code."""
    skip = set()
    if spec_t is not None:
        skip = {x.id for x in walk(spec_t)}
    best = None
    st, seen = [t], set()
    while st:
        x = st.pop(0)
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.id in locs and x.id not in skip and x.op not in ("sym",
                                                              "const"):
            best = locs[x.id]
            break
        st.extend(x.args)
    if best is None and t.id in locs:
        best = locs[t.id]
    return f"{best[0]}:{best[1]}" if best else default


class Spent(BaseException):
    """The reference took too long to decide."""


PER_SPEC, IN_ALL, MEMORY = 60, 500, 12 << 30
_SPENT = [0.0]


def check_spec(repo, spec, props, vocab):
    """Outcomes within bounded time and memory (else undecided)."""
    if threading.current_thread() is not threading.main_thread():
        return check_unbounded(repo, spec, props, vocab)
    left = min(PER_SPEC, IN_ALL - _SPENT[0])

    def late(*_):
        raise Spent
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    old = signal.signal(signal.SIGALRM, late)
    t0 = time.monotonic()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))
        signal.setitimer(signal.ITIMER_REAL, max(left, 5))
        try:
            return check_unbounded(repo, spec, props, vocab)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except (Spent, MemoryError) as e:
        return [Outcome(spec, "*", "undecided", "not decided within the "
                        + ("time" if isinstance(e, Spent) else "memory")
                        + " allowed")], None
    finally:
        signal.signal(signal.SIGALRM, old)
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
        dt = time.monotonic() - t0
        if dt > 5:
            _SPENT[0] += dt


def check_unbounded(repo, spec, props, vocab):
    """Outcomes of all obligations of a reference for the given props.

    Functions that have a reference of their own are not entered.  Where only
    one of reference and code calls such a function (the other spells out
    what it does), obligations that do not hold are decided again with those
    functions entered on both sides; then with short functions that both
    call entered too."""
    try:
        out, res = check_once(repo, spec, props, vocab)
    except AnalysisBroken as e:
        return [Outcome(spec, "*", "undecided", str(e))], None
    if res is not None and all(o.status == "holds" for o in out):
        out += check_defaults(repo, spec, props, vocab)
    if res is None or all(o.status == "holds" for o in out):
        return out, res
    if any(o.obs.startswith("default:") for o in out):
        return out, res
    s1, s2 = res[1].it.seen_boundaries, res[2].it.seen_boundaries
    one = {k for k in s1 ^ s2 if may_enter(repo, spec, k)}
    both = one | {k for k in s1 & s2 if may_enter(repo, spec, k)
                  and is_small(repo, k)}
    tries = [x for x in (one, both if both != one else None) if x]
    for enter in tries:
        try:
            if signal.getitimer(signal.ITIMER_REAL)[0] > 15:
                signal.setitimer(signal.ITIMER_REAL, 15)
            again, res2 = check_once(repo, spec, props, Vocabulary(), enter)
        except (Spent, MemoryError, AnalysisBroken):
            return out, res
        if res2 is None or res2[1].out is FALSE or res2[2].out is FALSE:
            return out, res
        ok = {o.obs for o in again if o.status == "holds"}
        for i, o in enumerate(out):
            if o.status != "holds" and o.obs in ok:
                out[i] = Outcome(spec, o.obs, "holds", "", o.where, o.props)
        if all(o.status == "holds" for o in out):
            out += check_defaults(repo, spec, props, vocab)
            break
    return out, res


def is_small(repo, key):
    """A few statements without loops and handlers."""
    mod, q = key.split(":")
    fi = repo.func("" if mod == "." else mod, q)
    n = list(ast.walk(fi.node))
    return sum(isinstance(x, ast.stmt) for x in n) <= 12 and not any(
        isinstance(x, (ast.For, ast.While, ast.Try, ast.With)) for x in n)


def may_enter(repo, spec, key):
    """Can a call of the function only mean this function, which returns?"""
    if key in ALWAYS:
        return False
    mod, q = key.split(":")
    try:
        fi = repo.func("" if mod == "." else mod, q)
    except Exception:
        return False
    if fi is None:
        return False
    if fi.cls is not None:
        defs = {id(f) for c in family(repo, fi.cls)
                for n, f in c.methods.items() if n == fi.name}
        if len(defs) > 1:
            return False
    return any(isinstance(n, ast.Return) for n in ast.walk(fi.node)) or \
        not isinstance(fi.node.body[-1], ast.Raise)


def check_defaults(repo, spec, props, vocab):
    """What is computed where a parameter is not given."""
    out = []
    try:
        fi = resolve_target(repo, spec.target)
    except AnalysisBroken:
        return out
    for ch in changed_defaults(spec, fi):
        res, ran = check_once(repo, spec, props, vocab, omitted=ch)
        label = f"default:{ch[0]}"
        bad = [o for o in res if o.status == "violation"] or \
            [o for o in res if o.status == "undecided"]
        if not bad:
            out.append(Outcome(spec, label, "holds", "", fi.where,
                               set(spec.props)))
        for o in bad[:3]:
            out.append(Outcome(spec, label + "/" + o.obs, o.status,
                               f"where {ch[2]} is not given: " + o.detail,
                               o.where, o.props))
    return out


def check_once(repo, spec, props, vocab, inline=(), omitted=None):
    out = []
    try:
        fi, r1, r2, sa, ia = run_spec(repo, spec, inline, omitted)
    except Unsupported as e:
        return [Outcome(spec, "*", "undecided", str(e))], None
    except AnalysisBroken as e:
        return [Outcome(spec, "*", "undecided", str(e))], None
    except RecursionError:
        return [Outcome(spec, "*", "undecided", "recursion limit")], None
    except Exception as e:  # the engine met something it does not expect
        return [Outcome(spec, "*", "undecided",
                        f"analysis failed: {type(e).__name__}: {e}")], None
    for t in [r1.ret] + list(r1.attrs().values()):
        vocab.add(t)
    for e in r1.events:
        for t in (e.guard,) + tuple(e.args or ()):
            vocab.add(t)
    for label, ps, a, b, care in observables(spec, r1, r2, sa, ia):
        if not set(ps) & set(props):
            continue
        c = Comparer()
        KEYS_OF[0] = repo.return_keys
        try:
            diffs = c.compare(a, b, care) if a is not b else []
        except (Spent, MemoryError):
            raise
        except Exception as e:
            out.append(Outcome(spec, label, "undecided",
                               f"comparison failed: {e}", fi.where, ps))
            continue
        real, und = [], []
        for d in diffs:
            if d.spec is UNDEF or d.spec.op == "undef":
                continue
            j, why = judge(d, vocab, repo, (a, b))
            if label.startswith("attr:") and b.op == "attr" and \
                    b.args[0] is sym("self") and not r2.it.problems:
                j = "violation"     # never set
            (real if j == "violation" else und).append((d, why))
        if und and real:
            # a difference that is not understood may explain the others
            out.append(Outcome(spec, label, "undecided", und[0][1],
                               fi.where, ps))
        elif und:
            out.append(Outcome(spec, label, "undecided", und[0][1],
                               fi.where, ps))
        elif real:
            d = real[0][0]
            w = locate(d.impl, r2.locs, fi.where, d.spec)
            det = (f"{spec.target} [{label}"
                   + (" / " + " / ".join(d.path) if d.path else "") + "]: "
                   f"expected {show(d.spec, 7)[:700]} but the code gives "
                   f"{show(d.impl, 7)[:700]}"
                   + (f" when {show(d.cond, 6)[:500]}"
                      if d.cond is not TRUE else ""))
            out.append(Outcome(spec, label, "violation", det, w, ps))
        else:
            out.append(Outcome(spec, label, "holds", "", fi.where, ps))
    return out, (fi, r1, r2)
