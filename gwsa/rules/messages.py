"""E15: every diagnostic obeys the level chosen for the measurement."""
import ast
from ..model import FuncInfo, AnalysisBroken
from ..report import Finding
from ..taint import Func
from . import diagnostics

OUTSIDE = ("load_data", "plot_settings", "compare_methods", "postprocess")
LEVEL = "debug_level"
WARNS = "issues a warning whatever the level"
SILENCERS = {"warnings.simplefilter", "warnings.filterwarnings",
             "warnings.catch_warnings", "warnings.resetwarnings"}
# warnings about what users ask of a finished object, never issued while
# measuring: evaluating a fit outside its range, and passing spline options
# together with an interpolator that has none
NOT_MEASURING = ("x_new contains points outside",
                 "Interpolator is")


def literal(c, f):
    """Leading literal text of a message."""
    e = c.args[0] if c.args else c
    if isinstance(e, ast.Name):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == e.id
                    for t in n.targets):
                e = n.value
                break
    for n in ast.walk(e):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return n.value[:40].strip()
    return ""


def is_level(fl, callers, f, e, seen=()):
    """e is the level of the measurement."""
    if isinstance(e, ast.Attribute):
        return e.attr == LEVEL
    if isinstance(e, ast.Subscript):
        return isinstance(e.slice, ast.Constant) and e.slice.value == LEVEL
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
            e.func.attr in ("get", "pop") or isinstance(e, ast.Call) and \
            getattr(e.func, "id", "") == "getattr":
        return any(isinstance(a, ast.Constant) and a.value == LEVEL
                   for a in e.args)
    if isinstance(e, ast.IfExp):
        return is_level(fl, callers, f, e.body, seen) and \
            is_level(fl, callers, f, e.orelse, seen)
    if not isinstance(e, ast.Name):
        return False
    if e.id == LEVEL and not any(
            isinstance(n, ast.Name) and n.id == LEVEL and
            isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
        return True
    if (id(f.node), e.id) in seen:
        return True
    seen = seen + ((id(f.node), e.id),)
    vals = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == e.id:
                    vals.append(n.value)
                elif isinstance(t, ast.Tuple) and isinstance(
                        n.value, ast.Tuple) and len(t.elts) == len(
                        n.value.elts):
                    vals += [v for x, v in zip(t.elts, n.value.elts)
                             if isinstance(x, ast.Name) and x.id == e.id]
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(
                n.target, ast.Name) and n.target.id == e.id:
            if isinstance(n, ast.AugAssign) or n.value is None:
                return False
            vals.append(n.value)
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    names = ps + [x.arg for x in a.kwonlyargs]
    if e.id in names:
        if e.id == LEVEL:
            pass
        else:
            cs = callers.get(id(f.node), ())
            if not cs:
                return False
            i = names.index(e.id)
            off = 1 if f.cls is not None and \
                "staticmethod" not in f.decorators else 0
            for g, c in cs:
                x = next((k.value for k in c.keywords if k.arg == e.id),
                         None)
                if x is None and i - off < len(c.args) and e.id in ps:
                    x = c.args[i - off]
                if x is None or not is_level(fl, callers, g, x, seen):
                    return False
            return all(is_level(fl, callers, f, v, seen) for v in vals)
    elif not vals:
        return False
    return all(is_level(fl, callers, f, v, seen) for v in vals)


def rule(repo, prop):
    k = diagnostics.facts(repo)
    fl = k.flow
    inside = [f for f in fl.funcs if not any(
        f.module.name.startswith(repo.package + "." + m) for m in OUTSIDE)]
    callers, n = {}, 0
    for f in fl.funcs:
        fn = Func(fl, f)
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call):
                for t in fn.targets(c):
                    if isinstance(t, FuncInfo):
                        callers.setdefault(id(t.node), []).append((f, c))
    for f in inside:
        bad = []
        fn = Func(fl, f)
        mine = 0
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call):
                t = fn.targets(c)
                if any(isinstance(x, FuncInfo) and x.name == "debug_message"
                       for x in t):
                    n += 1
                    mine += 1
                    lev = next((x.value for x in c.keywords
                                if x.arg == LEVEL), None)
                    if lev is None and len(c.args) > 1:
                        lev = c.args[1]
                    if lev is None or not is_level(fl, callers, f, lev):
                        bad.append((c, "issues a diagnostic at the level " + (
                            ast.unparse(lev) if lev is not None else "?") +
                            ", not that of the measurement"))
                    continue
                r = f.module.resolve_expr(c.func) if isinstance(
                    c.func, (ast.Name, ast.Attribute)) else None
                if r == "warnings.warn" and f.name != "debug_message":
                    bad.append((c, WARNS))
                elif r in SILENCERS:
                    bad.append((c, f"changes how warnings are shown ({r})"))
        for c in fl.printed.get(id(f.node), ()):
            if id(f.node) not in k.diag:
                bad.append((c, "prints whatever the level"))
        for h in fl.swallow.get(id(f.node), ()):
            bad.append((h, "an exception raised at the strictest level is "
                        "caught here"))
        for c, text in bad:
            name = f.qual
            if text == WARNS:
                # known by what it says: code may move between functions
                says = literal(c, f)
                if says.startswith(NOT_MEASURING):
                    continue
                name = f"'{says}'" if says else f.qual
            yield Finding("message-level", f"{name}: {text}",
                          "violation", f"{f.module.relpath}:{c.lineno}",
                          text)
        if mine and not bad:
            yield Finding("message-level", f.qual, "holds", f.where)
    if n < 10:
        raise AnalysisBroken("diagnostics are no longer issued through "
                             "debug_message")


RULES = {"E15": rule}
