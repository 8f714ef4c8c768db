"""Does the choice of diagnostics flow into results?

A flow-sensitive information-flow analysis (explicit and implicit flows) over
the syntax tree, function by function, with summaries for what functions
return and what attributes hold.  Raising an exception is not a flow.
"""
import ast
from .model import FuncInfo, ClassInfo
from . import effects

SOURCES = {"debug_plots", "debug_level", "verbose", "return_diagnostic_data"}


class Flow:
    """Facts about the whole package."""

    def __init__(self, repo, quiet=(), public=()):
        self.repo = repo
        self.ret = {}       # id(func node) -> reason
        self.attr = {}      # (class family, attr) -> reason
        self.param = {}     # (id(func node), param) -> reason
        self.mut = {}       # (id(func node), param) -> reason
        self.raised = {}    # id(raise statement) -> reason
        self.printed = {}   # id(func node) -> prints not under a flag
        self.swallow = {}   # id(func node) -> handlers hiding level 2
        self.used = {}      # (family, attr) -> functions reading it openly
        self.under = {}     # id(func node) -> {call: what it depends on}
        self.byref = set()  # names of functions used other than by calling
        self.sites = {}     # same keys -> (relpath, line, function)
        self.quiet = set(quiet)
        self.public = set(public)   # called by users too
        self.bymeth = {}
        self.funcs = []
        for m in repo.modules.values():
            self.funcs += list(m.functions.values())
            for c in m.classes.values():
                for f in c.methods.values():
                    self.funcs.append(f)
                    self.bymeth.setdefault(f.name, []).append(f)
        self.loud = self.loudness()
        for m in repo.modules.values():
            called = {id(n.func) for n in ast.walk(m.tree)
                      if isinstance(n, ast.Call)}
            self.byref |= {
                n.id if isinstance(n, ast.Name) else n.attr
                for n in ast.walk(m.tree)
                if isinstance(n, (ast.Name, ast.Attribute)) and
                isinstance(n.ctx, ast.Load) and id(n) not in called}
        for _ in range(12):
            n = self.size()
            for t in (self.used, self.printed, self.swallow):
                t.clear()
            for f in self.funcs:
                Func(self, f).run()
            if n == self.size():
                break

    def guard(self, fi):
        """What all calls of a helper depend on: (reason, or whether an
        exception is about to be raised)."""
        c = self.under.get(id(fi.node))
        if not c or id(fi.node) in self.public or \
                fi.name.startswith("__") or fi.name in self.byref:
            return None, False
        c = list(c.values())
        return (c[0][0] if all(x for x, _ in c) else None,
                all(x or d for x, d in c))

    def size(self):
        return (len(self.ret), len(self.attr), len(self.param),
                len(self.mut), len(self.raised),
                sum(bool(x) + d for c in self.under.values()
                    for x, d in c.values()),
                sum(map(len, self.under.values())))

    def loudness(self):
        """Functions that may issue a diagnostic, so raise at level 2."""
        loud = {id(f.node) for f in self.funcs if f.name == "debug_message"}
        calls = {}
        for f in self.funcs:
            fn = Func(self, f)
            out = calls[id(f.node)] = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    out |= {id(t.node) for t in fn.targets(n)
                            if isinstance(t, FuncInfo)}
        while True:
            more = {k for k, v in calls.items() if v & loud} - loud
            if not more:
                return loud
            loud |= more

    def fam(self, ci):
        return ci.mro()[-1].name if ci is not None else None

    def note(self, table, key, reason, fi, node):
        if key not in table:
            table[key] = reason
            self.sites[(id(table), key)] = (
                fi.module.relpath, getattr(node, "lineno", 0), fi.qual,
                len(self.sites))

    def site(self, table, key):
        return self.sites[(id(table), key)]


class Func:
    def __init__(self, flow, fi):
        self.fl, self.fi, self.repo = flow, fi, flow.repo
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        self.me = ps[0] if fi.cls is not None and \
            "staticmethod" not in fi.decorators and ps else None
        self.env = {}
        for x in ps + [y.arg for y in a.kwonlyargs]:
            if x in SOURCES:
                self.env[x] = x
            elif (id(fi.node), x) in flow.param:
                self.env[x] = flow.param[(id(fi.node), x)]
        self.params = set(ps) | {y.arg for y in a.kwonlyargs}
        self.rebound = {n.id for n in ast.walk(fi.node)
                        if isinstance(n, ast.Name) and
                        isinstance(n.ctx, ast.Store)}
        self.pc, self.dies = flow.guard(fi)
        self.gone = None
        self.alias = {}
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                d = self.selfattr(n.value)
                if d:
                    self.alias.setdefault(n.targets[0].id, set()).add(d)

    def selfattr(self, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) \
                and e.value.id == self.me:
            return e.attr
        return None

    def run(self):
        self.block(self.fi.node.body)

    # ---------------------------------------------------------- statements
    def block(self, body):
        up = self.dies
        self.dies = up or any(isinstance(s, ast.Raise) for s in body)
        for s in body:
            self.stmt(s)
        self.dies = up

    def ctl(self):
        return self.pc or self.gone

    def stmt(self, s):
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is not None:
            return f(s)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.bind(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            v2 = v or self.env.get(t.id)
            self.bind(t, v2, s)
            if v or self.ctl():
                for a in self.alias.get(t.id, ()):
                    self.setattr(a, v or self.ctl(), s, weak=True)
        else:
            old = self.ev(t)
            self.bind(t, v or old, s)

    def bind(self, t, v, node):
        v = v or self.ctl()
        if isinstance(t, ast.Name):
            if v:
                self.env[t.id] = v
            else:
                self.env.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, v, node)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, node)
        elif isinstance(t, ast.Attribute):
            if t.attr in SOURCES:
                return
            a = self.selfattr(t)
            if a:
                self.setattr(a, v, node)
            elif v:
                self.touch(t.value, v, node)
        elif isinstance(t, ast.Subscript):
            k = t.slice
            if isinstance(k, ast.Constant) and k.value in SOURCES and \
                    not self.ctl():
                return
            v = v or self.ev(k)
            if v:
                self.touch(t.value, v, node)

    def setattr(self, a, v, node, weak=False):
        if v:
            self.env["." + a] = v
            self.fl.note(self.fl.attr, (self.fl.fam(self.fi.cls), a), v,
                         self.fi, node)
        elif not weak:
            self.env["." + a] = ""

    def touch(self, e, v, node):
        """The object e is changed depending on v."""
        while isinstance(e, (ast.Subscript, ast.Attribute)) and \
                not self.selfattr(e):
            e = e.value
        if isinstance(e, ast.Name):
            if e.id == self.me:
                return
            self.env[e.id] = v
            if e.id in self.params and e.id not in self.rebound:
                self.fl.note(self.fl.mut, (id(self.fi.node), e.id), v,
                             self.fi, node)
            for a in self.alias.get(e.id, ()):
                self.setattr(a, v, node)
        else:
            a = self.selfattr(e)
            if a:
                self.setattr(a, v, node)

    def s_If(self, s):
        t = self.ev(s.test)
        old, pc = dict(self.env), self.pc
        self.pc = t or pc
        self.block(s.body)
        one = self.env
        self.env = old
        self.block(s.orelse)
        self.pc = pc
        self.merge(one)

    def merge(self, other):
        for k in set(self.env) | set(other):
            x, y = self.env.get(k), other.get(k)
            if x or y:
                self.env[k] = x or y
            elif k.startswith(".") and (x is None or y is None):
                self.env.pop(k, None)

    def s_For(self, s):
        t = self.ev(s.iter)
        pc = self.pc
        for _ in range(3):
            old = dict(self.env)
            self.bind(s.target, t, s)
            self.pc = t or pc
            self.block(s.body)
            self.merge(old)
            self.pc = pc
        self.block(s.orelse)

    def s_While(self, s):
        pc = self.pc
        for _ in range(3):
            old = dict(self.env)
            t = self.ev(s.test)
            self.pc = t or pc
            self.block(s.body)
            self.merge(old)
            self.pc = pc
        self.block(s.orelse)

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, s)
        self.block(s.body)

    def s_Try(self, s):
        old = dict(self.env)
        self.block(s.body)
        one = dict(self.env)
        quiet = self.fi.module.name.startswith(
            self.repo.package + ".postprocess")
        loud = not quiet and any(
            isinstance(n, ast.Call) and any(
                isinstance(t, FuncInfo) and id(t.node) in self.fl.loud
                for t in self.targets(n))
            for x in s.body for n in ast.walk(x))
        for h in s.handlers:
            self.env = dict(old)
            self.merge(one)
            if h.name:
                self.env.pop(h.name, None)
            pc = self.pc
            if loud and (h.type is None or ast.unparse(h.type).split(".")[-1]
                         in ("Exception", "BaseException", "Warning",
                             "UserWarning")):
                if not any(isinstance(n, ast.Raise)
                           for n in ast.walk(h)):
                    w = self.fl.swallow.setdefault(id(self.fi.node), [])
                    if h not in w:
                        w.append(h)
                self.pc = pc or "debug_level (the exception raised at " \
                    "level 2 is caught)"
            self.block(h.body)
            self.pc = pc
            self.merge(one)
            one = dict(self.env)
        self.env = one
        self.block(s.orelse)
        self.block(s.finalbody)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        plain = s.value is None or isinstance(s.value, ast.Constant) and \
            s.value.value is None
        v = v or (None if plain and self.only_none() else self.ctl())
        if v:
            self.fl.note(self.fl.ret, id(self.fi.node), v, self.fi, s)
        self.leave()

    def only_none(self):
        return all(n.value is None for n in ast.walk(self.fi.node)
                   if isinstance(n, ast.Return))

    def leave(self):
        if self.pc:
            self.gone = self.gone or self.pc

    def s_Break(self, s):
        self.leave()

    s_Continue = s_Break

    def s_Raise(self, s):
        if self.pc and "debug_level" not in self.pc:
            self.fl.note(self.fl.raised, id(s), self.pc, self.fi, s)

    def s_FunctionDef(self, s):
        v = None
        for n in ast.walk(s):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(
                    getattr(n, "ctx", None), ast.Load):
                v = v or self.ev(n)
        self.bind(ast.Name(id=s.name, ctx=ast.Store()), v, s)

    def s_Delete(self, s):
        for t in s.targets:
            if self.ctl() and not isinstance(t, ast.Name):
                self.touch(t, self.ctl(), s)

    # --------------------------------------------------------- expressions
    def ev(self, e):
        """Reason why e depends on the diagnostics, or None."""
        if e is None or isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.Name):
            return self.env.get(e.id)
        if isinstance(e, ast.Attribute):
            if e.attr in SOURCES:
                return e.attr
            a = self.selfattr(e)
            if a:
                if not self.ctl():
                    self.fl.used.setdefault(
                        (self.fl.fam(self.fi.cls), a), {})[
                            id(self.fi.node)] = self.fi
                if "." + a in self.env:
                    return self.env["." + a] or None
                return self.fl.attr.get((self.fl.fam(self.fi.cls), a))
            return self.ev(e.value)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant) and \
                    e.slice.value in SOURCES:
                return e.slice.value
            return self.ev(e.value) or self.ev(e.slice)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Lambda):
            return self.ev(e.body)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.bind(e.target, v, e)
            return v
        if isinstance(e, ast.Dict):
            r = None
            for k, v in zip(e.keys, e.values):
                if isinstance(k, ast.Constant) and k.value in SOURCES:
                    self.ev(v)
                    continue
                r = r or self.ev(k) or self.ev(v)
            return r
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            r = None
            for g in e.generators:
                v = self.ev(g.iter)
                self.bind(g.target, v, e)
                r = r or v
                for c in g.ifs:
                    r = r or self.ev(c)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp)
                      else [e.elt]):
                r = r or self.ev(x)
            return r
        r = None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                v = self.ev(c)
                r = r or v
        return r

    def targets(self, e):
        f = e.func
        a = self.selfattr(f)
        if a is not None and self.fi.cls is not None:
            out = []
            for c in effects.family(self.repo, self.fi.cls):
                if a in c.methods:
                    out.append(c.methods[a])
            return out
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) \
                and getattr(f.value.func, "id", "") == "super":
            t = self.fi.cls.find(f.attr, self.fi.cls) \
                if self.fi.cls is not None else None
            return [t] if t is not None else []
        if isinstance(f, ast.Name) and f.id in self.env:
            return []
        r = self.fi.module.resolve_expr(f) if isinstance(
            f, (ast.Name, ast.Attribute)) else None
        if isinstance(r, FuncInfo):
            return [r]
        if isinstance(r, ClassInfo):
            t = r.find("__init__")
            return [t] if t is not None else [r]
        if isinstance(r, str) or r is not None:
            return []
        if isinstance(f, ast.Attribute) and f.attr in self.fl.bymeth and \
                f.attr not in effects.MUTATORS:
            return list(self.fl.bymeth[f.attr])
        return []

    def call(self, e):
        ts = self.targets(e)
        if not ts and getattr(e.func, "id", "") == "print":
            p = self.fl.printed.setdefault(id(self.fi.node), [])
            if e in p:
                p.remove(e)
            if not self.ctl() and not self.dies:
                p.append(e)
        vals = [(isinstance(a, ast.Starred), self.ev(
            a.value if isinstance(a, ast.Starred) else a)) for a in e.args]
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        f = e.func
        recv = self.ev(f.value) if isinstance(f, ast.Attribute) else \
            self.ev(f)
        if not ts:
            r = recv
            known = isinstance(self.fi.module.resolve_expr(f), str) if \
                isinstance(f, (ast.Name, ast.Attribute)) else False
            for a, (_, v) in zip(e.args, vals):
                if known or not flag(a):
                    r = r or v
            for k, v in kws:
                if k not in SOURCES:
                    r = r or v
            if isinstance(f, ast.Attribute) and f.attr in effects.MUTATORS \
                    and self.fi.module.resolve_expr(f) is None and \
                    (r or self.ctl()):
                key = e.args[0] if e.args else None
                if not (isinstance(key, ast.Constant) and
                        key.value in SOURCES and not self.ctl()):
                    self.touch(f.value, r or self.ctl(), e)
            if getattr(f, "id", "") in ("setattr", "delattr") and \
                    len(e.args) > 1 and (r or self.ctl()):
                n = e.args[1]
                if isinstance(n, ast.Constant) and n.value not in SOURCES \
                        and isinstance(e.args[0], ast.Name) and \
                        e.args[0].id == self.me:
                    self.setattr(n.value, r or self.ctl(), e)
            if getattr(f, "id", "") in ("getattr",) and len(e.args) > 1 \
                    and isinstance(e.args[1], ast.Constant) and \
                    e.args[1].value in SOURCES:
                return e.args[1].value
            if isinstance(f, ast.Attribute) and f.attr in ("get", "pop") \
                    and e.args and isinstance(e.args[0], ast.Constant) and \
                    e.args[0].value in SOURCES:
                return e.args[0].value
            return r
        r = None
        for t in ts:
            if isinstance(t, FuncInfo):
                self.fl.under.setdefault(id(t.node), {})[id(e)] = (
                    self.ctl(), self.dies)
            if isinstance(t, ClassInfo):
                for _, v in vals:
                    r = r or v
                for _, v in kws:
                    r = r or v
                continue
            a = t.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if t.cls is not None and "staticmethod" not in t.decorators:
                ps = ps[1:]
            names = set(ps) | {x.arg for x in a.kwonlyargs}

            def give(p, v):
                if v and p not in SOURCES and t.name not in self.fl.quiet:
                    self.fl.note(self.fl.param, (id(t.node), p), v,
                                 self.fi, e)
            for i, (star, v) in enumerate(vals):
                if star:
                    for p in ps[i:]:
                        give(p, v)
                elif i < len(ps):
                    give(ps[i], v)
            for k, v in kws:
                if k is None:
                    for p in names:
                        give(p, v)
                elif k in names:
                    give(k, v)
            args = dict(zip(ps, [x for x in e.args]))
            args.update({k.arg: k.value for k in e.keywords if k.arg})
            for p, x in args.items():
                if (id(t.node), p) in self.fl.mut:
                    self.touch(x, self.fl.mut[(id(t.node), p)], e)
                elif self.ctl() and p in changes(self.fl, t):
                    self.touch(x, self.ctl(), e)
            if self.ctl() and self.selfattr(f) and t.cls is not None:
                for a in writes(self.fl, t):
                    if a not in SOURCES:
                        self.setattr(a, self.ctl(), e)
            if t.name != "__init__":
                r = r or self.fl.ret.get(id(t.node))
        return r


def flag(e):
    return isinstance(e, ast.Name) and e.id in SOURCES or \
        isinstance(e, ast.Attribute) and e.attr in SOURCES


def changes(flow, fi):
    """Parameters that fi changes in place."""
    from .alias import Analysis
    an = flow.__dict__.setdefault("_alias_an", None)
    if an is None:
        an = flow.__dict__["_alias_an"] = Analysis(flow.repo)
    return {o[1] for o in an.summary(fi).muts if o[0] == "P"}


def writes(flow, fi):
    """Attributes of self that fi assigns."""
    changes(flow, fi)
    me = fi.node.args.args[0].arg if fi.node.args.args else "self"
    return {k for (o, k) in flow.__dict__["_alias_an"].summary(fi).stores
            if o == ("P", me) and isinstance(k, str)}
