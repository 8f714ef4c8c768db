"""Source model: parse the package, resolve names, classes and methods."""
import ast
import os
import symtable  # noqa: F401  (used by the name-resolution check)
from .unroll import written_out


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (missing anchor, unparsable file)."""


class FuncInfo:
    def __init__(self, node, module, cls=None, qual=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or ((cls.name + "." if cls else "") + self.name)
        self.decorators = [ast.unparse(d) for d in
                           getattr(node, "decorator_list", [])]

    @property
    def where(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    def __repr__(self):
        return f"<func {self.module.name}.{self.qual}>"


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.consts, self.fields = {}, {}, []
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = FuncInfo(s, module, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(
                    s.target, ast.Name):
                self.fields.append((s.target.id, s.value))
                if s.value is not None:
                    self.consts[s.target.id] = s.value

    @property
    def is_dataclass(self):
        return any(d.split("(")[0].split(".")[-1] == "dataclass"
                   for d in self.decorators)

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.module.resolve_expr(b)
            if isinstance(r, ClassInfo):
                out.append(r)
            else:
                out.append(r if isinstance(r, str) else ast.unparse(b))
        return out

    def mro(self):
        # linear for single inheritance; depth-first otherwise
        out = [self]
        for b in self.bases():
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else after.mro()[1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_const(self, name):
        for c in self.mro():
            if name in c.consts:
                return c, c.consts[name]
        return None

    def unknown_bases(self):
        return [b for c in self.mro() for b in c.bases()
                if not isinstance(b, ClassInfo) and b != "object"]

    def __repr__(self):
        return f"<class {self.module.name}.{self.name}>"


class ModuleInfo:
    def __init__(self, repo, name, path, is_pkg):
        self.repo, self.name, self.path, self.is_pkg = repo, name, path, is_pkg
        self.relpath = os.path.relpath(path, repo.root)
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.tree = written_out(ast.parse(self.src, path))
        except SyntaxError as e:
            raise AnalysisBroken(f"cannot parse {path}: {e}")
        self.functions, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self.star = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[s.name] = FuncInfo(s, self)
                self.consts.pop(s.name, None)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        r = a.name.split(".")[0]
                        self.imports[r] = r
            elif isinstance(s, ast.ImportFrom):
                base = self._from_base(s)
                for a in s.names:
                    if a.name == "*":
                        self.star.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.consts[e.id] = None
            elif isinstance(s, ast.AnnAssign) and isinstance(
                    s.target, ast.Name):
                self.consts[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.With)):
                self._collect(s.body)
                self._collect(getattr(s, "orelse", []))
            elif isinstance(s, ast.Try):
                self._collect(s.body)
                for h in s.handlers:
                    self._collect([x for x in h.body])
                self._collect(s.orelse)
                self._collect(s.finalbody)

    def _from_base(self, s):
        if not s.level:
            return s.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        if s.module:
            parts.append(s.module)
        return ".".join(parts)

    def resolve(self, name):
        """FuncInfo / ClassInfo / ModuleInfo / ('const', module, expr) /
        dotted external string / None."""
        if name in self.functions:
            return self.functions[name]
        if name in self.classes:
            return self.classes[name]
        if name in self.consts:
            return ("const", self, self.consts[name], name)
        if name in self.imports:
            return self.repo.resolve_dotted(self.imports[name])
        for b in self.star:
            m = self.repo.modules.get(b)
            if m:
                r = m.resolve(name)
                if r is not None:
                    return r
        return None

    def resolve_expr(self, e):
        if isinstance(e, ast.Name):
            return self.resolve(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            if isinstance(b, ModuleInfo):
                return b.resolve(e.attr)
            if isinstance(b, str):
                return b + "." + e.attr
        return None


class Repo:
    def __init__(self, root, package="gw_eccentricity"):
        self.root, self.package = root, package
        self.modules = {}
        top = os.path.join(root, package)
        if not os.path.isdir(top):
            raise AnalysisBroken(f"package directory {top} not found")
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                parts = os.path.relpath(p, root)[:-3].split(os.sep)
                pkg = parts[-1] == "__init__"
                if pkg:
                    parts = parts[:-1]
                self.modules[".".join(parts)] = ModuleInfo(
                    self, ".".join(parts), p, pkg)

    def never_none(self, head):
        """Calls under this head ("fn:f", "m:f", "cls:C") give a value other
        than None, whichever function or method of that name is meant."""
        kind, _, name = head.partition(":")
        if kind == "cls":
            return True
        if kind not in ("fn", "m") or not name:
            return False
        memo = self.__dict__.setdefault("_never_none", {})
        if head not in memo:
            memo[head] = False          # (recursion)
            name = name.rpartition(".")[2]
            fs = []
            for m in self.modules.values():
                for f in list(m.functions.values()) if kind == "fn" else [
                        c.methods[name] for c in m.classes.values()
                        if name in c.methods]:
                    if f.name == name:
                        fs.append(f)
            memo[head] = bool(fs) and all(NeverNone(self, f).decide()
                                          for f in fs)
        return memo[head]

    def only_function(self, name):
        """The function of this name, if there is one only."""
        fs = [m.functions[name] for m in self.modules.values()
              if name in m.functions]
        return fs[0] if len(fs) == 1 else None

    def item_init(self, head):
        """The initialiser of what calls under this head list, if that is
        only classes, whose initialisers take the same arguments."""
        kind, _, name = head.partition(":")
        if kind != "fn":
            return None
        memo = self.__dict__.setdefault("_item_init", {})
        if name not in memo:
            memo[name] = None
            f = self.only_function(name)
            cs = self._classes_named(f) if f is not None else []
            inits = [accepting_init(c) for c in cs]
            if inits and None not in inits and len(
                    {ast.dump(i.node.args) for i in inits}) == 1:
                memo[name] = inits[0]
        return memo[name]

    def _classes_named(self, fi):
        out, seen, todo = [], set(), [fi.node]
        while todo:
            for n in ast.walk(todo.pop()):
                if not isinstance(n, ast.Name) or n.id in seen:
                    continue
                seen.add(n.id)
                r = fi.module.resolve(n.id)
                if isinstance(r, ClassInfo):
                    out.append(r)
                elif n.id in fi.module.consts:
                    todo.append(fi.module.consts[n.id])
        return out

    def full_items(self, head):
        """No item of what calls under this head give is None: dictionaries
        displayed with such values, or lists of strings."""
        kind, _, name = head.partition(":")
        if kind != "fn" or not name:
            return False
        memo = self.__dict__.setdefault("_full_items", {})
        if head not in memo:
            memo[head] = False
            name = name.rpartition(".")[2]
            fs = [f for m in self.modules.values()
                  for f in m.functions.values() if f.name == name]
            memo[head] = bool(fs) and all(NeverNone(self, f).full()
                                          for f in fs)
        return memo[head]

    def return_keys(self, head):
        """The keys of the dictionary that every completed call under this
        head gives, if all its returns display one with the same keys."""
        kind, _, name = head.partition(":")
        if kind != "fn" or not name:
            return None
        memo = self.__dict__.setdefault("_return_keys", {})
        if head not in memo:
            name = name.rpartition(".")[2]
            out = set()
            for m in self.modules.values():
                for f in m.functions.values():
                    if f.name == name:
                        out.add(displayed_keys(f))
            memo[head] = out.pop() if len(out) == 1 else None
        return memo[head]

    def return_length(self, head):
        """The length of the tuple that every completed call under this
        head gives, if all its returns display one of the same length."""
        kind, _, name = head.partition(":")
        if kind != "fn" or not name:
            return None
        memo = self.__dict__.setdefault("_return_length", {})
        if head not in memo:
            name = name.rpartition(".")[2]
            out = {displayed_length(f) for m in self.modules.values()
                   for f in m.functions.values() if f.name == name}
            memo[head] = out.pop() if len(out) == 1 else None
        return memo[head]

    def plain_attr(self, ci, name):
        """(parameter, subscripts) if attribute `name` of every instance of
        the class is that part of an argument of __init__ ever after."""
        memo = self.__dict__.setdefault("_plain_attr", {})
        k = (ci.module.name, ci.name, name)
        if k not in memo:
            memo[k] = self._plain_attr_of(ci, name)
        return memo[k]

    def _plain_attr_of(self, ci, name):
        init = ci.find("__init__")
        if init is None or ci.find_const(name) is not None or \
                ci.find(name) is not None:
            return None
        own = [f for c in ci.mro() for f in c.methods.values()]
        nodes = {id(n) for f in own for n in ast.walk(f.node)}
        stores = []
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and n.attr == name and \
                        not isinstance(n.ctx, ast.Load):
                    if id(n) in nodes:
                        stores.append(n)
                    elif not (isinstance(n.value, ast.Name)
                              and n.value.id == "self"):
                        return None
        if len(stores) != 1 or not init.node.args.args:
            return None
        me = init.node.args.args[0].arg
        for s in init.node.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    s.targets[0] is stores[0]:
                break
        else:
            return None
        if not (isinstance(stores[0].value, ast.Name)
                and stores[0].value.id == me):
            return None
        e, subs = s.value, []
        while isinstance(e, ast.Subscript) and isinstance(
                e.slice, ast.Constant):
            subs.insert(0, e.slice.value)
            e = e.value
        params = {x.arg for x in init.node.args.args[1:]
                  + init.node.args.kwonlyargs}
        if not isinstance(e, ast.Name) or e.id not in params or any(
                isinstance(n, ast.Name) and n.id == e.id
                and not isinstance(n.ctx, ast.Load)
                for n in ast.walk(init.node)):
            return None
        return e.id, subs

    def resolve_dotted(self, dotted, _depth=0):
        if dotted in self.modules:
            # a name may be both a submodule and an attribute of the package
            parent, _, last = dotted.rpartition(".")
            pm = self.modules.get(parent)
            if pm is not None and (last in pm.functions or
                                   last in pm.classes):
                return pm.resolve(last)
            return self.modules[dotted]
        if _depth < 8 and "." in dotted:
            parent, _, last = dotted.rpartition(".")
            if parent in self.modules:
                m = self.modules[parent]
                r = m.resolve(last)
                if r is not None:
                    return r
                return None
        if dotted.split(".")[0] == self.package:
            return None
        return dotted

    def module(self, name):
        full = self.package + ("." + name if name else "")
        if full not in self.modules:
            raise AnalysisBroken(f"module {full} not found")
        return self.modules[full]

    def func(self, mod, name):
        """name: 'f' or 'Class.f'."""
        m = self.module(mod)
        if "." in name:
            c, f = name.split(".")
            r = m.resolve(c)
            if not isinstance(r, ClassInfo):
                raise AnalysisBroken(f"class {c} not found in {m.name}")
            fi = r.find(f)
        else:
            fi = m.resolve(name)
            if not isinstance(fi, FuncInfo):
                fi = None
        if fi is None:
            raise AnalysisBroken(f"function {name} not found in {m.name}")
        return fi

    def cls(self, mod, name):
        r = self.module(mod).resolve(name)
        if not isinstance(r, ClassInfo):
            raise AnalysisBroken(f"class {name} not found in "
                                 f"{self.package}.{mod}")
        return r


def accepting_init(c):
    """The initialiser that takes the arguments: where one is given all of
    them to pass on, the next one."""
    fi = c.find("__init__")
    while fi is not None:
        a = fi.node.args
        if not (a.vararg and a.kwarg) or len(a.posonlyargs + a.args) != 1 \
                or a.kwonlyargs:
            return fi
        want = (f"super().__init__(*{a.vararg.arg}, **{a.kwarg.arg})")
        if not any(isinstance(n, ast.Call) and ast.unparse(n) == want
                   for n in ast.walk(fi.node)):
            return None
        fi = c.find("__init__", after=fi.cls)
    return None


class NeverNone:
    """Does every completed call of a function return something that is not
    None?  (Syntactic, flow insensitive for local variables.)"""

    def __init__(self, repo, fi):
        self.repo, self.fi = repo, fi
        a = fi.node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.values = {}
        self.returns = []
        self.other = set()
        self.collect(fi.node.body)

    def collect(self, body):
        for s in body:
            self.visit(s)

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            self.values.setdefault(n.name, []).append(ast.Lambda)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global,
                          ast.Nonlocal)):
            self.returns.append(None)
        if isinstance(n, ast.Return):
            self.returns.append(n.value)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                self.bind(t, n.value)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            self.bind(n.target, n.value)
        elif isinstance(n, ast.NamedExpr):
            self.bind(n.target, n.value)
        elif isinstance(n, ast.AugAssign):
            pass                        # arithmetic gives no None
        elif isinstance(n, (ast.For, ast.comprehension)):
            self.bind(n.target, None)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            self.bind(n.optional_vars, None)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.other.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c)

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.values.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e, None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, None)

    def decide(self):
        return not self.fi.decorators and bool(self.returns) and \
            not falls_through(self.fi.node.body) and \
            all(r is not None and self.solid(r, ()) for r in self.returns)

    def full(self):
        """Is everything returned a display whose items are not None (which
        nothing in the function changes)?"""
        for n in ast.walk(self.fi.node):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and not \
                    isinstance(n.ctx, ast.Load):
                return False
        return self.decide() and all(self.filled(r) for r in self.returns)

    def filled(self, e):
        if isinstance(e, ast.IfExp):
            return self.filled(e.body) and self.filled(e.orelse)
        if isinstance(e, ast.Name) and e.id not in self.params | self.other:
            v = self.values.get(e.id)
            return bool(v) and all(isinstance(
                x, (ast.Dict, ast.IfExp, ast.List, ast.Tuple)) and
                self.filled(x) for x in v)
        if isinstance(e, ast.Dict):
            return all(k is not None and isinstance(k, ast.Constant) and
                       k.value is not None for k in e.keys) and \
                all(self.item(v) for v in e.values)
        if isinstance(e, (ast.List, ast.Tuple)):
            return all(self.item(v) for v in e.elts)
        if isinstance(e, ast.Call) and not e.keywords:
            f = e.func
            if isinstance(f, ast.Name) and f.id in (
                    "list", "sorted", "tuple") and len(e.args) == 1:
                return self.filled(e.args[0])
            return isinstance(f, ast.Attribute) and not e.args and \
                f.attr == "keys" and self.filled(f.value)
        return False

    def item(self, v):
        if isinstance(v, ast.Name) and v.id not in self.values and \
                v.id not in self.params | self.other:
            return isinstance(self.fi.module.resolve_expr(v),
                              (FuncInfo, ClassInfo))
        return self.solid(v, ())

    def solid(self, e, busy):
        if e is ast.Lambda:
            return True
        if e is None:
            return False
        if isinstance(e, ast.Constant):
            return e.value is not None
        if isinstance(e, (ast.Tuple, ast.List, ast.Dict, ast.Set, ast.BinOp,
                          ast.UnaryOp, ast.Compare, ast.JoinedStr,
                          ast.Lambda, ast.ListComp, ast.DictComp,
                          ast.SetComp, ast.GeneratorExp)):
            return True
        if isinstance(e, ast.IfExp):
            return self.solid(e.body, busy) and self.solid(e.orelse, busy)
        if isinstance(e, ast.BoolOp):
            return all(self.solid(v, busy) for v in e.values)
        if isinstance(e, ast.Name):
            if e.id in self.params or e.id in self.other or e.id in busy:
                return e.id in busy
            v = self.values.get(e.id)
            return bool(v) and all(self.solid(x, busy + (e.id,)) for x in v)
        if isinstance(e, ast.Call):
            f = e.func
            r = None
            if not (isinstance(f, ast.Name) and f.id in self.values):
                r = self.fi.module.resolve_expr(f)
            if isinstance(r, FuncInfo):
                return self.repo.never_none("fn:" + r.name)
            if isinstance(r, ClassInfo):
                return True
            if isinstance(r, str):
                return r.startswith(("numpy.", "scipy."))
            if isinstance(f, ast.Attribute) and isinstance(
                    f.value, ast.Name) and f.value.id == "self":
                return self.repo.never_none("m:" + f.attr)
            if isinstance(f, ast.Name) and r is None and \
                    f.id not in self.values and f.id not in self.params:
                return f.id in ("len", "int", "float", "str", "list",
                                "tuple", "dict", "set", "sorted", "abs",
                                "range", "bool", "zip", "enumerate")
        return False


def displayed_keys(fi):
    if fi.decorators or falls_through(fi.node.body):
        return None
    out = set()
    st = list(fi.node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.AsyncFunctionDef)):
            return None
        if isinstance(n, ast.Return):
            v = n.value
            if isinstance(v, ast.Name):
                v = only_display(fi, v.id)
            if not isinstance(v, ast.Dict) or not all(
                    isinstance(k, ast.Constant) and isinstance(k.value, str)
                    for k in v.keys):
                return None
            out.add(frozenset(k.value for k in v.keys))
        st.extend(ast.iter_child_nodes(n))
    return out.pop() if len(out) == 1 else None


def displayed_length(fi):
    if fi.decorators or falls_through(fi.node.body):
        return None
    out = set()
    st = list(fi.node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.AsyncFunctionDef)):
            return None
        if isinstance(n, ast.Return):
            if not isinstance(n.value, ast.Tuple) or any(
                    isinstance(x, ast.Starred) for x in n.value.elts):
                return None
            out.add(len(n.value.elts))
        st.extend(ast.iter_child_nodes(n))
    return out.pop() if len(out) == 1 else None


def only_display(fi, name):
    """The value a local variable is given, once and for all, if nothing
    can change what it refers to."""
    uses = [n for n in ast.walk(fi.node)
            if isinstance(n, ast.Name) and n.id == name]
    reads = [n.value for n in ast.walk(fi.node)
             if isinstance(n, ast.Return) or isinstance(n, ast.Subscript)
             and isinstance(n.ctx, ast.Load)]
    stores = [n for n in uses if not isinstance(n.ctx, ast.Load)]
    if len(stores) != 1 or any(
            n is not stores[0] and not any(n is r for r in reads)
            for n in uses):
        return None
    for s in fi.node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                s.targets[0] is stores[0]:
            return s.value
    return None


def falls_through(body):
    """May control reach the end of the statements?"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If) and s.orelse and not falls_through(
                s.body) and not falls_through(s.orelse):
            return False
        if isinstance(s, ast.With) and not falls_through(s.body):
            return False
        if isinstance(s, ast.Try) and (
                s.finalbody and not falls_through(s.finalbody) or
                not falls_through(s.body + s.orelse) and
                not any(falls_through(h.body) for h in s.handlers)):
            return False
        if isinstance(s, ast.While) and isinstance(
                s.test, ast.Constant) and s.test.value and not any(
                isinstance(x, ast.Break) for x in ast.walk(s)):
            return False
    return True
