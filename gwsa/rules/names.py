"""E32: every path refers only to names, attributes and entries that exist."""
import ast
import builtins
import json
import os
from ..defs import (unbound_locals, local_names, sequence, afterwards,
                    attribute_cells)
from ..model import FuncInfo, ClassInfo, ModuleInfo
from ..report import Finding

LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), "data", "libnames.json")
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__",
                                 "__builtins__", "__spec__", "__path__",
                                 "__package__"}
# entries that come from files, users or other packages (read, never written
# by the package)
OUTSIDE = None


def lib(repo):
    r = repo.__dict__.get("_libnames")
    if r is None:
        r = repo.__dict__["_libnames"] = json.load(open(LIB))
        r["attributes"] = set(r["attributes"])
        r["modules"] = {k: set(v) for k, v in r["modules"].items()}
    return r


def functions(repo):
    for m in repo.modules.values():
        for f in m.functions.values():
            yield f
        for c in m.classes.values():
            for f in c.methods.values():
                yield f


# ---------------------------------------------------------------- plain names
def scopes(fi):
    """(function node, names of the enclosing functions) of fi and of every
    function nested in it."""
    todo = [(fi.node, frozenset())]
    while todo:
        fn, outer = todo.pop()
        yield fn, outer
        mine = outer | local_names(fn)

        def nested(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    todo.append((c, mine))
                elif not isinstance(c, ast.ClassDef):
                    nested(c)
        for s in (fn.body if isinstance(fn.body, list) else [fn.body]):
            if isinstance(s, (ast.FunctionDef, ast.Lambda)):
                todo.append((s, mine))
            else:
                nested(s)


def free_names(fn):
    """Name loads of fn that are not local to it, nor to a comprehension."""
    loc = local_names(fn)
    out = []

    def go(n, bound):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            a = getattr(n, "args", None)
            for d in (a.defaults + [x for x in a.kw_defaults if x]
                      if a else []):
                go(d, bound)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            b = set(bound)
            for g in n.generators:
                go(g.iter, b)
                b |= {x.id for x in ast.walk(g.target)
                      if isinstance(x, ast.Name)}
                for c in g.ifs:
                    go(c, b)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp)
                      else [n.elt]):
                go(x, b)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                n.id not in loc and n.id not in bound:
            out.append(n)
        if isinstance(n, ast.arg) and n.annotation is not None:
            return
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns"):
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    go(c, bound)
    for s in (fn.body if isinstance(fn.body, list) else [fn.body]):
        go(s, frozenset())
    return out


def module_has(m, name):
    return (name in m.functions or name in m.classes or name in m.consts or
            name in m.imports or any(
                m.repo.modules.get(b) is None or module_has(
                    m.repo.modules[b], name) for b in m.star))


def module_names(m):
    """Names bound at the top level by other statements (for, with, ...)."""
    memo = m.repo.__dict__.setdefault("_rule_modnames", {})
    if m.name in memo:
        return memo[m.name]
    out = memo[m.name] = set()
    for s in m.tree.body:
        if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and not isinstance(
                        n.ctx, ast.Load):
                    out.add(n.id)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out.update(n.names)
    return out


def names(repo, prop):
    for f in functions(repo):
        bad = []
        m = f.module
        extra = module_names(m)
        for fn, outer in scopes(f):
            if not isinstance(fn, ast.Lambda):
                for c, n in unbound_locals(fn)[0]:
                    bad.append((n, f"{c} may be used before it is set"))
            for n in free_names(fn):
                if n.id not in outer and n.id not in BUILTINS and \
                        n.id not in extra and not module_has(m, n.id):
                    bad.append((n, f"{n.id} is not defined"))
        seen = set()
        for n, text in bad:
            if text not in seen:
                seen.add(text)
                yield Finding("names", f"{f.qual}: {text}", "violation",
                              f"{m.relpath}:{n.lineno}",
                              f"{text} in {f.qual}")
        if not bad:
            yield Finding("names", f"{m.name}.{f.qual}", "holds", f.where)


# ---------------------------------------------------------------- attributes
def attributes(repo, prop):
    done = set()
    leaf = [c for m in repo.modules.values() for c in m.classes.values()
            if not any(c in d.mro()[1:] for k in repo.modules.values()
                       for d in k.classes.values())]
    for c in leaf:
        if c.unknown_bases() or c.find("__getattr__") or not any(
                k.methods for k in c.mro()):
            continue
        first = ["__init__", "measure_ecc"] if c.find("measure_ecc") else [
            "__init__"]
        found, st, assigned = sequence(repo, c, first)
        if len(first) == 1:
            # other classes document their own order of use
            assigned = assigned | assigned_anywhere(c)
        found = list(found) + list(afterwards(repo, c, assigned, first))
        bad = {}
        for cell, n, fi, path in found:
            bad.setdefault((fi.module.relpath, fi.qual, cell), (n, fi, path))
        for (rel, q, cell), (n, fi, path) in sorted(bad.items()):
            if (rel, q, cell) in done:
                continue
            done.add((rel, q, cell))
            yield Finding(
                "attributes", f"{q}: {cell}", "violation",
                f"{rel}:{n.lineno}",
                f"{cell} may not be set yet when {q} uses it (called through "
                f"{' -> '.join(p.name for p in path)})")
        if not bad:
            n = len(attribute_cells(repo, c))
            yield Finding("attributes", f"{c.name} ({n} attributes)",
                          "holds", c.module.relpath + ":" +
                          str(c.node.lineno))


def assigned_anywhere(c):
    out = {"self." + n for k in c.mro() for n, _ in k.fields}
    for k in c.mro():
        for m in k.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and not isinstance(
                        n.ctx, ast.Load):
                    out.add("self." + n.attr)
    return out


# --------------------------------------------------------------------- calls
def signature(fi, bound):
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = set(pos[:len(pos) - nd])
    if bound and pos:
        req.discard(pos[0])
        pos = pos[1:]
    kwo = [x.arg for x in a.kwonlyargs]
    req |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return pos, kwo, req, a.vararg is not None, a.kwarg is not None


def mismatch(call, sig):
    pos, kwo, req, va, kwa = sig
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(not isinstance(x, ast.Starred) for x in call.args)
    if n > len(pos) and not va:
        return f"takes {len(pos)} positional arguments, {n} given"
    given = set(pos[:n]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in pos and k.arg not in kwo and not kwa:
            return f"has no argument {k.arg}"
        if k.arg in given:
            return f"is given {k.arg} twice"
        given.add(k.arg)
    miss = req - given
    if miss and not star and not dstar:
        return f"is not given {', '.join(sorted(miss))}"
    return None


def callee(fi, e, shadow):
    """[(function, bound)] that a call certainly refers to."""
    f, m = e.func, fi.module
    me = None
    if fi.cls is not None and "staticmethod" not in fi.decorators:
        a = fi.node.args
        me = (a.posonlyargs + a.args)[0].arg if a.posonlyargs + a.args \
            else None

    def method(c, name, after=None):
        t = c.find(name, after)
        if t is None:
            return []
        return [(t, "staticmethod" not in t.decorators)]
    if isinstance(f, ast.Name):
        if f.id in shadow:
            return []
        r = m.resolve(f.id)
    elif isinstance(f, ast.Attribute):
        v = f.value
        if isinstance(v, ast.Name) and v.id == me:
            from .. import effects
            out = []
            # whatever class of the family the object has
            for c in effects.family(fi.module.repo, fi.cls):
                if fi.cls in c.mro():
                    out += [x for x in method(c, f.attr) if x not in out]
            return out
        if isinstance(v, ast.Call) and isinstance(
                v.func, ast.Name) and v.func.id == "super" and fi.cls:
            return method(fi.cls, f.attr, fi.cls)
        b = v
        while isinstance(b, ast.Attribute):
            b = b.value
        if not isinstance(b, ast.Name) or b.id in shadow:
            return []
        r = m.resolve_expr(f)
        if r is None:
            c = m.resolve_expr(v)
            if isinstance(c, ClassInfo):
                t = c.find(f.attr)
                return [(t, t is not None and
                         "classmethod" in t.decorators)] if t else []
    else:
        return []
    if isinstance(r, FuncInfo):
        return [(r, False)]
    if isinstance(r, ClassInfo):
        t = r.find("__init__")
        return [(t, True)] if t is not None else [(r, True)]
    return []


def class_signature(c):
    if c.unknown_bases() or not c.is_dataclass:
        return None
    pos, req = [], set()
    for k in reversed(c.mro()):
        for n, d in k.fields:
            if n not in pos:
                pos.append(n)
            if d is None:
                req.add(n)
            else:
                req.discard(n)
    return pos, [], req, False, False


def width(fi, seen=()):
    """Number of values fi returns, if every return agrees."""
    if fi in seen or len(seen) > 5:
        return None
    out = set()
    rets = []

    def scan(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                out.add(None)
            if isinstance(c, ast.Return):
                rets.append(c)
            scan(c)
    scan(fi.node)
    for r in rets:
        if isinstance(r.value, ast.Tuple) and not any(
                isinstance(x, ast.Starred) for x in r.value.elts):
            out.add(len(r.value.elts))
        elif isinstance(r.value, ast.Call):
            ts = callee(fi, r.value, local_names(fi.node))
            w = {width(t, seen + (fi,)) if isinstance(t, FuncInfo) else None
                 for t, _ in ts}
            out |= w or {None}
        elif isinstance(r.value, ast.Constant) or r.value is None:
            out.add(0)
        else:
            out.add(None)
    return out.pop() if len(out) == 1 else None


def calls(repo, prop):
    n = 0
    for f in functions(repo):
        bad, cnt = [], 0
        for fn, outer in scopes(f):
            shadow = outer | local_names(fn) if fn is not f.node else \
                local_names(fn)
            me = None
            if f.cls is not None and f.node.args.args:
                me = f.node.args.args[0].arg
            for e in own_nodes(fn):
                if isinstance(e, ast.Call):
                    for t, bound in callee(f, e, shadow - {me}):
                        cnt += 1
                        sig = class_signature(t) if isinstance(
                            t, ClassInfo) else signature(t, bound)
                        if isinstance(t, FuncInfo) and t.decorators and any(
                                d not in ("staticmethod", "classmethod",
                                          "property")
                                for d in t.decorators):
                            continue
                        if isinstance(t, FuncInfo) and "classmethod" in \
                                t.decorators:
                            sig = signature(t, True)
                        w = sig and mismatch(e, sig)
                        if w:
                            bad.append((e, f"{t.qual if isinstance(t, FuncInfo) else t.name} {w}"))
                elif isinstance(e, ast.Assign) and isinstance(
                        e.value, ast.Call) and isinstance(
                            e.targets[0], (ast.Tuple, ast.List)) and not any(
                                isinstance(x, ast.Starred)
                                for x in e.targets[0].elts):
                    for t, _ in callee(f, e.value, shadow - {me}):
                        if not isinstance(t, FuncInfo):
                            continue
                        w = width(t)
                        cnt += 1
                        if w is not None and w != len(e.targets[0].elts):
                            bad.append((e, f"{t.qual} returns {w} values, "
                                        f"{len(e.targets[0].elts)} are "
                                        "unpacked"))
        n += cnt
        for e, text in bad:
            yield Finding("calls", f"{f.qual}: {text}", "violation",
                          f"{f.module.relpath}:{e.lineno}",
                          f"{ast.unparse(e)[:120]}: {text}")
        if cnt and not bad:
            yield Finding("calls", f"{f.module.name}.{f.qual} ({cnt} calls)",
                          "holds", f.where)


def own_nodes(fn):
    out = []

    def go(n):
        out.append(n)
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda)):
                go(c)
    for s in (fn.body if isinstance(fn.body, list) else [fn.body]):
        if not isinstance(s, (ast.FunctionDef, ast.Lambda)):
            go(s)
    return out


# ---------------------------------------------- attributes of other objects
def known_attributes(repo):
    r = repo.__dict__.get("_rule_attrs")
    if r is None:
        r = set(lib(repo)["attributes"])
        for m in repo.modules.values():
            r |= set(m.functions) | set(m.classes) | set(m.consts) | set(
                m.imports)
            for c in m.classes.values():
                r |= set(c.methods) | set(c.consts) | {n for n, _ in
                                                       c.fields}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and not isinstance(
                        n.ctx, ast.Load):
                    r.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and \
                        n.func.attr == "add_argument":
                    # argparse destinations
                    for a in n.args:
                        if isinstance(a, ast.Constant):
                            r.add(str(a.value).lstrip("-").replace("-", "_"))
        repo.__dict__["_rule_attrs"] = r
    return r


def others(repo, prop):
    known = known_attributes(repo)
    mods = lib(repo)["modules"]
    for f in functions(repo):
        bad, cnt = [], 0
        m = f.module
        loc = local_names(f.node)
        me = None
        if f.cls is not None and f.node.args.args and \
                "staticmethod" not in f.decorators:
            me = f.node.args.args[0].arg
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Attribute) or not isinstance(
                    n.ctx, ast.Load):
                continue
            cnt += 1
            b = n.value
            while isinstance(b, ast.Attribute):
                b = b.value
            r = None
            if isinstance(n.value, ast.Name) and n.value.id == me:
                continue
            if isinstance(b, ast.Name) and b.id not in loc:
                r = m.resolve_expr(n.value)
            if isinstance(r, str):
                if r in mods and n.attr not in mods[r] and \
                        r + "." + n.attr not in mods:
                    bad.append((n, f"{r} has no {n.attr}"))
            elif isinstance(r, ModuleInfo):
                if r.resolve(n.attr) is None and \
                        r.name + "." + n.attr not in repo.modules:
                    bad.append((n, f"{r.name} has no {n.attr}"))
            elif n.attr not in known:
                bad.append((n, f"nothing defines an attribute {n.attr}"))
        for n, text in bad:
            yield Finding("members", f"{f.qual}: {ast.unparse(n)}",
                          "violation", f"{m.relpath}:{n.lineno}", text)
        if cnt and not bad:
            yield Finding("members", f"{m.name}.{f.qual} ({cnt})", "holds",
                          f.where)
    for m in repo.modules.values():
        bad = []
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = m._from_base(n)
                for a in n.names:
                    if a.name == "*":
                        continue
                    t = repo.modules.get(base)
                    if t is not None:
                        if t.resolve(a.name) is None and \
                                base + "." + a.name not in repo.modules and \
                                a.name not in module_names(t):
                            bad.append((n, f"{base} has no {a.name}"))
                    elif base.split(".")[0] == repo.package:
                        bad.append((n, f"there is no module {base}"))
                    elif base in mods and a.name not in mods[base] and \
                            base + "." + a.name not in mods:
                        bad.append((n, f"{base} has no {a.name}"))
        for n, text in bad:
            yield Finding("imports", f"{m.name}: {text}", "violation",
                          f"{m.relpath}:{n.lineno}", text)
        if not bad:
            yield Finding("imports", m.name, "holds", m.relpath + ":1")


RULES = {"E32": lambda repo, prop: [x for f in (names, attributes, calls,
                                                others)
                                    for x in f(repo, prop)]}
