"""Attributes reached by computed names.

Loops and comprehensions over a few constants that name attributes
(getattr(self, f"{name}_location") for name in ["pericenters", ...]) are
written out and the names put in, so that every analysis sees plain
attribute accesses."""
import ast
import copy

MOST = 6
BY_NAME = ("getattr", "setattr", "hasattr", "delattr")


def const_str(n):
    return isinstance(n, ast.Constant) and isinstance(n.value, str)


class Put(ast.NodeTransformer):
    """Replace names by constants and work out the strings made of them."""

    def __init__(self, values):
        self.values = values

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.values:
            return ast.copy_location(copy.deepcopy(self.values[n.id]), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        out = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                if not const_str(v.value) or v.conversion != -1 or \
                        v.format_spec is not None:
                    return n
                v = v.value
            out.append(v.value)
        return ast.copy_location(ast.Constant("".join(out)), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and const_str(n.left) and \
                const_str(n.right):
            return ast.copy_location(
                ast.Constant(n.left.value + n.right.value), n)
        return n


def by_computed_name(nodes, names):
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in BY_NAME and len(n.args) > 1 and any(
                        isinstance(x, ast.Name) and x.id in names
                        for x in ast.walk(n.args[1])):
                return True
    return False


class Unroll(ast.NodeTransformer):
    def __init__(self):
        self.lists = [{}]

    # ------------------------------------------------------------ sequences
    def visit_FunctionDef(self, n):
        stores, vals = {}, {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                stores[x.id] = stores.get(x.id, 0) + 1
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name) and isinstance(
                        x.value, (ast.List, ast.Tuple)):
                vals[x.targets[0].id] = x.value
        self.lists.append({k: v for k, v in vals.items()
                           if stores[k] == 1 and all(
                               isinstance(e, ast.Constant) for e in v.elts)})
        self.generic_visit(n)
        self.lists.pop()
        return n

    def elements(self, it):
        """Expressions the loop takes its values from."""
        if isinstance(it, ast.Name):
            it = self.lists[-1].get(it.id)
        if isinstance(it, (ast.List, ast.Tuple)):
            if len(it.elts) <= MOST and not any(
                    isinstance(e, ast.Starred) for e in it.elts):
                return it.elts
            return None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                not it.keywords and it.args:
            cols = [self.elements(a) for a in it.args]
            if it.func.id == "zip" and None not in cols and len(
                    {len(c) for c in cols}) == 1:
                return [ast.copy_location(ast.Tuple(list(r), ast.Load()), it)
                        for r in zip(*cols)]
            if it.func.id == "enumerate" and len(cols) == 1 and \
                    cols[0] is not None:
                return [ast.copy_location(ast.Tuple(
                    [ast.copy_location(ast.Constant(i), it), e], ast.Load()),
                    it) for i, e in enumerate(cols[0])]
        return None

    def rounds(self, target, it, body):
        """For each round the assignments that start it and the values that
        are constants; None if the loop is to stay."""
        names = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        if not by_computed_name(body, names):
            return None
        es = self.elements(it)
        if not es:
            return None
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id in names and \
                        not isinstance(n.ctx, ast.Load) or isinstance(
                            n, (ast.Lambda, ast.FunctionDef, ast.Break,
                                ast.Continue)):
                    return None
        out = []
        for e in es:
            ts = [target]
            vs = [e]
            if isinstance(target, (ast.Tuple, ast.List)):
                if not isinstance(e, (ast.Tuple, ast.List)) or \
                        len(e.elts) != len(target.elts):
                    return None
                ts, vs = target.elts, e.elts
            if not all(isinstance(t, ast.Name) for t in ts):
                return None
            out.append(([(t, v) for t, v in zip(ts, vs)],
                        {t.id: v for t, v in zip(ts, vs)
                         if isinstance(v, ast.Constant)}))
        if not all(c for _, c in out):
            return None
        return out

    # ---------------------------------------------------------------- nodes
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        rs = self.rounds(n.target, n.iter, n.body)
        if rs is None:
            return n
        out = []
        for pairs, values in rs:
            for t, v in pairs:
                out.append(ast.copy_location(ast.Assign(
                    [copy.deepcopy(t)], copy.deepcopy(v)), n))
            for b in n.body:
                out.append(Plain().visit(Put(values).visit(
                    copy.deepcopy(b))))
        return [ast.fix_missing_locations(x) for x in out]

    def comp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].ifs or \
                n.generators[0].is_async:
            return n
        g = n.generators[0]
        rs = self.rounds(g.target, g.iter, [n.elt])
        if rs is None or any(len(c) != len(p) for p, c in rs):
            return n
        return ast.fix_missing_locations(ast.copy_location(ast.List(
            [Plain().visit(Put(c).visit(copy.deepcopy(n.elt)))
             for _, c in rs], ast.Load()), n))

    visit_ListComp = visit_GeneratorExp = comp

    def visit_Compare(self, n):
        """k in x.keys()  ->  k in x"""
        self.generic_visit(n)
        c = n.comparators[0]
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Attribute) and c.func.attr == "keys" and \
                not c.args and not c.keywords:
            n.comparators[0] = c.func.value
        return n


class Plain(ast.NodeTransformer):
    """getattr(x, "name") and setattr(x, "name", v) as attribute accesses."""

    def named(self, n, f, k):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id == f and len(n.args) == k and not n.keywords and \
            const_str(n.args[1]) and n.args[1].value.isidentifier()

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.named(n, "getattr", 2):
            return ast.copy_location(ast.Attribute(
                n.args[0], n.args[1].value, ast.Load()), n)
        return n

    def visit_Expr(self, n):
        self.generic_visit(n)
        if self.named(n.value, "setattr", 3):
            a, b, c = n.value.args
            return ast.copy_location(ast.Assign([ast.copy_location(
                ast.Attribute(a, b.value, ast.Store()), n)], c), n)
        return n


def written_out(tree):
    return ast.fix_missing_locations(Unroll().visit(tree))
