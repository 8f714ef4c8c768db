"""Which attributes of self a method may read or write, transitively."""
import ast
from .model import ClassInfo

MUTATORS = {"update", "append", "extend", "pop", "clear", "setdefault",
            "insert", "remove", "sort", "popitem", "fill", "resize"}


def family(repo, ci):
    c = repo.__dict__.setdefault("_family", {})
    if id(ci) not in c:
        out = []
        for m in repo.modules.values():
            for k in m.classes.values():
                if ci in k.mro() or k in ci.mro():
                    out.append(k)
        # siblings share the state of the common base
        base = [k for k in out if k in ci.mro()]
        for m in repo.modules.values():
            for k in m.classes.values():
                if k not in out and any(b in k.mro() for b in base):
                    out.append(k)
        c[id(ci)] = out
    return c[id(ci)]


def _direct(repo, fi):
    """(reads, writes, method names used) of one function body."""
    cache = repo.__dict__.setdefault("_direct", {})
    if id(fi.node) in cache:
        return cache[id(fi.node)]
    rd, wr, use = set(), set(), set()
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    me = names[0] if names else "self"
    alias = {}
    parents = {}
    for n in ast.walk(fi.node):
        for c in ast.iter_child_nodes(n):
            parents[id(c)] = n

    def is_self(n):
        return isinstance(n, ast.Name) and n.id == me
    # local names that may alias an attribute
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) \
                and is_self(n.value.value):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    alias[t.id] = n.value.attr
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and is_self(n.value):
            if isinstance(n.ctx, ast.Load):
                rd.add(n.attr)
                use.add(n.attr)
                p = parents.get(id(n))
                # in-place change of the attribute's value
                q = n
                while isinstance(p, ast.Subscript) and p.value is q:
                    if not isinstance(p.ctx, ast.Load):
                        wr.add(n.attr)
                    q, p = p, parents.get(id(p))
                if isinstance(p, ast.Attribute) and p.attr in MUTATORS:
                    g = parents.get(id(p))
                    if isinstance(g, ast.Call) and g.func is p:
                        wr.add(n.attr)
            else:
                wr.add(n.attr)
                p = parents.get(id(n))
                if isinstance(p, ast.AugAssign):
                    rd.add(n.attr)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) \
                and getattr(n.value.func, "id", "") == "super":
            use.add(n.attr)
        elif isinstance(n, ast.Subscript) and isinstance(
                n.value, ast.Name) and n.value.id in alias and \
                not isinstance(n.ctx, ast.Load):
            wr.add(alias[n.value.id])
        elif isinstance(n, ast.Call) and getattr(n.func, "id", "") in (
                "setattr", "getattr", "hasattr", "delattr") and n.args and \
                is_self(n.args[0]):
            names_ = set()
            if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                names_ = {n.args[1].value}
            else:
                names_ = {x.value for x in ast.walk(fi.node)
                          if isinstance(x, ast.Constant)
                          and isinstance(x.value, str)
                          and x.value.isidentifier()}
            if n.func.id in ("setattr", "delattr"):
                wr |= names_
            else:
                rd |= names_
                use |= names_
    cache[id(fi.node)] = (rd, wr, use)
    return cache[id(fi.node)]


def summary(repo, fi):
    """(reads, writes): attribute names of self, through every method that
    may be dispatched."""
    cache = repo.__dict__.setdefault("_effects", {})
    if id(fi.node) in cache:
        return cache[id(fi.node)]
    fam = family(repo, fi.cls) if fi.cls is not None else []
    rd, wr = set(), set()
    todo, seen = [fi], set()
    methods = {m for c in fam for m in c.methods}
    while todo:
        f = todo.pop()
        if id(f.node) in seen:
            continue
        seen.add(id(f.node))
        r, w, u = _direct(repo, f)
        rd |= r
        wr |= w
        for m in u:
            for c in fam:
                if m in c.methods:
                    todo.append(c.methods[m])
    cache[id(fi.node)] = (rd - methods, wr - methods)
    return cache[id(fi.node)]


def keys_read(fi, name):
    """Constant keys under which a function reads its parameter if it does
    nothing else with it, else None."""
    memo = fi.node.__dict__.setdefault("_keys_read", {})
    if name not in memo:
        memo[name] = None
        ks, ok = set(), set()
        a = fi.node.args
        named = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if name not in named:
            return None
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.value, ast.Name) and n.value.id == name and \
                    isinstance(n.ctx, ast.Load) and isinstance(
                        n.slice, ast.Constant) and isinstance(
                            n.slice.value, str):
                ks.add(n.slice.value)
                ok.add(id(n.value))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                    isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                        n.left, ast.Constant) and isinstance(
                            n.comparators[0], ast.Name) and \
                    n.comparators[0].id == name:
                ks.add(n.left.value)
                ok.add(id(n.comparators[0]))
        if all(id(n) in ok for n in ast.walk(fi.node)
               if isinstance(n, ast.Name) and n.id == name) and not any(
                isinstance(n, ast.Name) and n.id in (
                    "locals", "vars", "eval", "exec")
                for n in ast.walk(fi.node)):
            memo[name] = frozenset(ks)
    return memo[name]
