"""Behaviour-preserving rewrites of a function, one site at a time.

Used to measure that the obligations judge what the code does and not how it
is written: after each rewrite (of the syntax tree in memory; nothing is
written or executed) no obligation may be reported.
"""
import ast
import builtins
import copy

PURE_MODULES = {"np", "numpy", "math", "os"}
PURE_BUILTINS = {"len", "abs", "max", "min", "int", "float", "str", "list",
                 "tuple", "sorted", "sum", "isinstance", "range", "bool",
                 "round", "set", "zip", "enumerate", "any", "all", "dict"}
BUILTINS = set(dir(builtins))


def pure(e):
    """No effects and no dependence on effects of its neighbours."""
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE_BUILTINS:
                continue
            r = f
            while isinstance(r, ast.Attribute):
                r = r.value
            if isinstance(r, ast.Name) and r.id in PURE_MODULES and \
                    isinstance(f, ast.Attribute) and f.attr not in (
                        "makedirs", "remove", "replace", "seterr"):
                continue
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await,
                          ast.NamedExpr)):
            return False
    return True


def noraise(e):
    """Moving the expression cannot move an exception."""
    return pure(e)


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
            and isinstance(x.ctx, ctx)}


def bound_inside(e):
    """Names bound by comprehensions and lambdas within e."""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.comprehension):
            out |= names(n.target, ast.Store)
        elif isinstance(n, ast.Lambda):
            out |= {a.arg for a in n.args.args}
        elif isinstance(n, (ast.FunctionDef,)):
            out |= {a.arg for a in n.args.args}
    return out


def locals_of(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.FunctionDef) and n is not fn:
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add((x.asname or x.name).split(".")[0])
    return out


def defs_before(fn, path):
    """Names definitely bound before the statement reached by path."""
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    for (lst, i, owner) in path:
        if isinstance(owner, ast.For):
            out |= names(owner.target, ast.Store)
        elif isinstance(owner, ast.With):
            for it in owner.items:
                if it.optional_vars is not None:
                    out |= names(it.optional_vars, ast.Store)
        elif isinstance(owner, ast.ExceptHandler) and owner.name:
            out.add(owner.name)
        for s in lst[:i]:
            out |= definite(s)
    return out


def definite(s):
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr)):
        e = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                e.add(n.id)
        return e - bound_inside(s)
    if isinstance(s, (ast.Import, ast.ImportFrom)):
        return {(x.asname or x.name).split(".")[0] for x in s.names}
    if isinstance(s, ast.FunctionDef):
        return {s.name}
    if isinstance(s, ast.If):
        a = block_definite(s.body)
        b = block_definite(s.orelse)
        if a is None:
            return b or set()
        if b is None:
            return a
        return a & b
    if isinstance(s, ast.Try):
        a = block_definite(s.body + s.orelse)
        rs = [a] + [block_definite(h.body) for h in s.handlers]
        rs = [r for r in rs if r is not None]
        out = set.intersection(*rs) if rs else set()
        return out | (block_definite(s.finalbody) or set())
    if isinstance(s, ast.With):
        r = block_definite(s.body) or set()
        for it in s.items:
            if it.optional_vars is not None:
                r |= names(it.optional_vars, ast.Store)
        return r
    return set()


def block_definite(b):
    """None when the block never falls through."""
    out = set()
    for s in b:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return None
        out |= definite(s)
    return out


def blocks(fn):
    """[(statement list, path)] of all blocks of fn outside nested defs."""
    out = []

    def rec(lst, path, owner):
        out.append((lst, path, owner))
        for i, s in enumerate(lst):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            p = path + [(lst, i, owner)]
            for f in ("body", "orelse", "finalbody"):
                v = getattr(s, f, None)
                if isinstance(v, list) and v:
                    rec(v, p, s)
            for h in getattr(s, "handlers", []):
                rec(h.body, p, h)
    rec(fn.body, [], fn)
    return out


def jumps(b):
    """Control flow leaving the block other than by an exception."""
    def rec(s, loop):
        if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(s, ast.Return):
            return True
        if isinstance(s, (ast.Break, ast.Continue)) and not loop:
            return True
        if isinstance(s, (ast.Yield, ast.YieldFrom, ast.Global,
                          ast.Nonlocal, ast.Delete)):
            return True
        loop = loop or isinstance(s, (ast.For, ast.While))
        return any(rec(c, loop) for c in ast.iter_child_nodes(s))
    return any(rec(s, False) for s in b)


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def mkargs(ns):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in ns],
                         kwonlyargs=[], kw_defaults=[], defaults=[])


def has_super(n):
    return any(isinstance(x, ast.Name) and x.id == "super"
               for x in ast.walk(n))


def uses_closure(fn):
    return False


def make_helper(fn, cls, name, ins, body):
    """(helper node, call expression, where)."""
    me = fn.args.args[0].arg if cls and fn.args.args else None
    if me is not None and me in ins:
        ins = [n for n in ins if n != me]
        h = ast.FunctionDef(name=name, args=mkargs([me] + ins), body=body,
                            decorator_list=[], type_params=[])
        f = ast.Attribute(load(me), name, ast.Load())
        where = "cls"
    else:
        h = ast.FunctionDef(name=name, args=mkargs(ins), body=body,
                            decorator_list=[], type_params=[])
        f = load(name)
        where = "mod"
    return h, ast.Call(f, [load(n) for n in ins], []), where


def t_extract_block(fn, cls):
    loc = locals_of(fn)
    allb = blocks(fn)
    for bi, (lst, path, owner) in enumerate(allb):
        n = len(lst)
        for i in range(n):
            for j in (i + 1, i + 2, i + 3, i + 5, n):
                if j > n or (j == n and n - i in (1, 2, 3, 5)):
                    continue
                if j - i == n and owner is fn:
                    continue
                part = lst[i:j]
                if any(is_doc(s) for s in part) or jumps(part):
                    continue
                if any(isinstance(x, (ast.FunctionDef, ast.Import,
                                      ast.ImportFrom, ast.ClassDef))
                       for s in part for x in ast.walk(s)) or any(
                           has_super(s) for s in part):
                    continue
                if len(part) == 1 and isinstance(part[0], (ast.Raise,
                                                           ast.Pass)):
                    continue
                mod = ast.Module(part, [])
                stored = names(mod, ast.Store) - bound_inside(mod)
                loaded = names(mod, ast.Load) & loc
                # used outside the block?
                inside = {id(x) for s in part for x in ast.walk(s)}
                outs = []
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Load) and id(x) not in inside and \
                            x.id in stored:
                        outs.append(x.id)
                inloop = any(isinstance(o, (ast.For, ast.While))
                             for _, _, o in path) or isinstance(
                                 owner, (ast.For, ast.While))
                before = defs_before(fn, path + [(lst, i, owner)])
                if inloop:
                    # may be read by the next iteration
                    outs += [x for x in stored if x in loaded]
                outs = sorted(set(outs))
                defin = set()
                for s in part:
                    defin |= definite(s)
                # order of definition inside the block
                ins = set()
                seen = set()
                bad = False
                for s in part:
                    for x in names(s, ast.Load) & loc:
                        if x in bound_inside(s) and x not in before:
                            continue
                        if x not in seen or isinstance(s, (
                                ast.For, ast.While)) and x not in \
                                _first_def(s):
                            ins.add(x)
                    if isinstance(s, ast.AugAssign) and isinstance(
                            s.target, ast.Name) and s.target.id not in seen:
                        ins.add(s.target.id)
                    seen |= definite(s)
                # names local to the block
                ins2 = set()
                for x in ins:
                    if x in before:
                        ins2.add(x)
                    else:
                        bad = True
                for x in outs:
                    if x not in defin and x not in before:
                        bad = True
                    elif x not in defin:
                        ins2.add(x)
                if bad or len(outs) > 5:
                    continue
                ln = part[0].lineno

                def apply(c, c2, bi=bi, i=i, j=j, ins=sorted(ins2),
                          outs=outs):
                    lst = blocks(c)[bi][0]
                    body = lst[i:j]
                    if outs:
                        v = load(outs[0]) if len(outs) == 1 else ast.Tuple(
                            [load(o) for o in outs], ast.Load())
                        body = body + [ast.Return(v)]
                    h, call, where = make_helper(c, c2, "_extracted_part",
                                                 ins, body)
                    if not outs:
                        new = ast.Expr(call)
                    else:
                        t = store(outs[0]) if len(outs) == 1 else ast.Tuple(
                            [store(o) for o in outs], ast.Store())
                        new = ast.Assign([t], call)
                    lst[i:j] = [ast.copy_location(new, lst[i])]
                    return [(where, h)]
                yield f"block of {j - i} extracted", ln, apply


def _first_def(s):
    """Names bound by the loop statement before its body reads them."""
    if isinstance(s, ast.For):
        out = set(names(s.target, ast.Store))
        seen = set(out)
        for x in s.body:
            for n in names(x, ast.Load):
                pass
            seen |= definite(x)
        # only trust the first statements
        ok = set(names(s.target, ast.Store))
        for x in s.body:
            d = definite(x)
            for n in d:
                prior = any(n in names(y, ast.Load)
                            for y in s.body[:s.body.index(x) + 1])
                if not prior:
                    ok.add(n)
        return ok
    return set()


def exprs(fn):
    """[(expr, statement, block index, position)] evaluated exactly once and
    unconditionally by a simple statement."""
    out = []
    allb = blocks(fn)
    for bi, (lst, path, owner) in enumerate(allb):
        for i, s in enumerate(lst):
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Return,
                              ast.Expr)):
                roots = [s.value] if s.value is not None else []
            elif isinstance(s, ast.If):
                roots = [s.test]
            elif isinstance(s, ast.For):
                roots = [s.iter]
            else:
                continue
            if is_doc(s):
                continue
            for r in roots:
                st = [(r, True)]
                while st:
                    e, top = st.pop()
                    if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp,
                                      ast.DictComp, ast.GeneratorExp,
                                      ast.JoinedStr)):
                        continue
                    if isinstance(e, (ast.BinOp, ast.Call, ast.Subscript,
                                      ast.Compare, ast.UnaryOp,
                                      ast.Attribute, ast.BoolOp)):
                        out.append((e, s, bi, i))
                    if isinstance(e, ast.BoolOp):
                        st.append((e.values[0], False))
                        continue
                    if isinstance(e, ast.IfExp):
                        st.append((e.test, False))
                        continue
                    if isinstance(e, ast.Call):
                        for k in e.keywords:
                            st.append((k.value, False))
                        if isinstance(e.func, ast.Attribute):
                            st.append((e.func.value, False))
                        for x in e.args:
                            if not isinstance(x, ast.Starred):
                                st.append((x, False))
                        continue
                    for c in ast.iter_child_nodes(e):
                        if isinstance(c, ast.expr):
                            st.append((c, False))
    return out


def size(e):
    return sum(1 for _ in ast.walk(e))


class Replace(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return self.new
        return self.generic_visit(n)


def t_name_expr(fn, cls):
    for k, (e, s, bi, i) in enumerate(exprs(fn)):
        if not pure(e) or size(e) < 5 or isinstance(e, ast.Attribute):
            continue
        # everything evaluated earlier in the statement must be pure too
        if not all(pure(x) for x in ast.iter_child_nodes(s)
                   if isinstance(x, ast.expr)) and not (
                isinstance(s, (ast.Assign, ast.Expr, ast.Return))
                and isinstance(s.value, ast.Call) and all(
                    pure(a) for a in s.value.args) and all(
                    pure(a.value) for a in s.value.keywords)):
            continue

        def apply(c, c2, k=k):
            e, s, bi, i = exprs(c)[k]
            lst = blocks(c)[bi][0]
            Replace(e, load("_named_value")).visit(s)
            lst.insert(i, ast.copy_location(ast.Assign(
                [store("_named_value")], e), s))
            return []
        yield "expression named", e.lineno, apply


def t_extract_expr(fn, cls):
    loc = locals_of(fn)
    for k, (e, s, bi, i) in enumerate(exprs(fn)):
        if size(e) < 6 or has_super(e) or isinstance(e, ast.Attribute):
            continue
        if any(isinstance(x, (ast.Lambda, ast.NamedExpr, ast.Yield))
               for x in ast.walk(e)):
            continue
        b = bound_inside(e)
        ins = sorted((names(e, ast.Load) & loc) - b)
        if b & (names(e, ast.Load) & loc) & set(ins):
            continue

        def apply(c, c2, k=k, ins=ins):
            e, s, bi, i = exprs(c)[k]
            h, call, where = make_helper(c, c2, "_extracted_value", ins,
                                         [ast.Return(e)])
            Replace(e, call).visit(s)
            return [(where, h)]
        yield "expression extracted", e.lineno, apply


def t_inline_temp(fn, cls):
    allb = blocks(fn)
    count = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name):
            count[x.id] = count.get(x.id, 0) + 1
    for bi, (lst, path, owner) in enumerate(allb):
        for i in range(len(lst) - 1):
            s, t = lst[i], lst[i + 1]
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1
                    and isinstance(s.targets[0], ast.Name)):
                continue
            v = s.targets[0].id
            if count[v] != 2 or not isinstance(t, (
                    ast.Assign, ast.Return, ast.Expr, ast.AugAssign)):
                continue
            uses = [x for x in ast.walk(t) if isinstance(x, ast.Name)
                    and x.id == v]
            if len(uses) != 1 or not pure(s.value):
                continue
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp,
                                  ast.GeneratorExp, ast.SetComp,
                                  ast.BoolOp, ast.IfExp))
                   for x in ast.walk(t)):
                continue
            if not pure(t.value) and not (isinstance(t.value, ast.Call)
                                          and all(pure(a) for a in
                                                  t.value.args)):
                continue

            def apply(c, c2, bi=bi, i=i, v=v):
                lst = blocks(c)[bi][0]
                s, t = lst[i], lst[i + 1]
                use = [x for x in ast.walk(t) if isinstance(x, ast.Name)
                       and x.id == v][0]
                Replace(use, s.value).visit(t)
                del lst[i]
                return []
            yield "temporary inlined", s.lineno, apply


def t_loop_to_comp(fn, cls):
    allb = blocks(fn)
    for bi, (lst, path, owner) in enumerate(allb):
        for i, s in enumerate(lst):
            if not isinstance(s, ast.For) or s.orelse:
                continue
            b, conds = s.body, 0
            if len(b) == 1 and isinstance(b[0], ast.If) and \
                    not b[0].orelse:
                b, conds = b[0].body, 1
            if len(b) != 1 or not isinstance(b[0], ast.Expr):
                continue
            c0 = b[0].value
            if not (isinstance(c0, ast.Call) and isinstance(
                    c0.func, ast.Attribute) and c0.func.attr == "append"
                    and isinstance(c0.func.value, ast.Name)):
                continue
            acc = c0.func.value.id
            if i == 0 or not (isinstance(lst[i - 1], ast.Assign) and
                              isinstance(lst[i - 1].targets[0], ast.Name)
                              and lst[i - 1].targets[0].id == acc and
                              isinstance(lst[i - 1].value, ast.List) and
                              not lst[i - 1].value.elts):
                continue
            tn = names(s.target, ast.Store)
            rest = [x for st in lst[i + 1:] for x in ast.walk(st)]
            if any(isinstance(x, ast.Name) and x.id in tn for x in rest):
                continue

            def apply(c, c2, bi=bi, i=i, conds=conds):
                lst = blocks(c)[bi][0]
                s = lst[i]
                b = s.body
                ifs = []
                if conds:
                    ifs = [b[0].test]
                    b = b[0].body
                comp = ast.ListComp(b[0].value.args[0], [ast.comprehension(
                    s.target, s.iter, ifs, 0)])
                lst[i - 1].value = comp
                del lst[i]
                return []
            yield "loop to comprehension", s.lineno, apply


def t_comp_to_loop(fn, cls):
    allb = blocks(fn)
    for bi, (lst, path, owner) in enumerate(allb):
        for i, s in enumerate(lst):
            if not isinstance(s, ast.Assign) or len(s.targets) != 1:
                continue
            v = s.value
            inner = None
            if isinstance(v, (ast.ListComp, ast.DictComp)):
                inner = v
                how = "direct"
            elif isinstance(v, ast.Call) and len(v.args) == 1 and \
                    isinstance(v.args[0], ast.ListComp) and not v.keywords:
                inner = v.args[0]
                how = "arg"
            if inner is None or len(inner.generators) != 1:
                continue

            def apply(c, c2, bi=bi, i=i, how=how):
                lst = blocks(c)[bi][0]
                s = lst[i]
                v = s.value if how == "direct" else s.value.args[0]
                g = v.generators[0]
                ren = {n: n + "_item" for n in names(g.target, ast.Store)}

                class R(ast.NodeTransformer):
                    def visit_Name(self, n):
                        if n.id in ren:
                            n.id = ren[n.id]
                        return n
                it = g.iter
                if isinstance(v, ast.ListComp):
                    e = R().visit(v.elt)
                    stmt = ast.Expr(ast.Call(ast.Attribute(
                        load("_acc"), "append", ast.Load()), [e], []))
                    init = ast.List([], ast.Load())
                else:
                    k, e = R().visit(v.key), R().visit(v.value)
                    stmt = ast.Assign([ast.Subscript(
                        load("_acc"), k, ast.Store())], e)
                    init = ast.Dict([], [])
                tgt = R().visit(g.target)
                body = [stmt]
                for t in reversed(g.ifs):
                    body = [ast.If(R().visit(t), body, [])]
                loop = ast.For(tgt, it, body, [])
                if how == "direct":
                    s.value = load("_acc")
                else:
                    s.value.args[0] = load("_acc")
                lst[i:i + 1] = [ast.Assign([store("_acc")], init), loop, s]
                return []
            yield "comprehension to loop", s.lineno, apply


def t_swap(fn, cls):
    allb = blocks(fn)
    for bi, (lst, path, owner) in enumerate(allb):
        for i in range(len(lst) - 1):
            s, t = lst[i], lst[i + 1]
            if not all(isinstance(x, ast.Assign) and pure(x.value)
                       for x in (s, t)):
                continue

            def tgt(x):
                out = set()
                for y in x.targets:
                    if isinstance(y, ast.Name):
                        out.add(y.id)
                    elif isinstance(y, ast.Attribute) and isinstance(
                            y.value, ast.Name):
                        out.add(y.value.id + "." + y.attr)
                    else:
                        return None
                return out

            def src(x):
                out = set()
                for y in ast.walk(x.value):
                    if isinstance(y, ast.Name):
                        out.add(y.id)
                    if isinstance(y, ast.Attribute) and isinstance(
                            y.value, ast.Name):
                        out.add(y.value.id + "." + y.attr)
                return out
            a, b = tgt(s), tgt(t)
            if a is None or b is None or a & b or a & src(t) or b & src(s):
                continue

            def apply(c, c2, bi=bi, i=i):
                lst = blocks(c)[bi][0]
                lst[i], lst[i + 1] = lst[i + 1], lst[i]
                return []
            yield "statements swapped", s.lineno, apply


def t_ifexp(fn, cls):
    allb = blocks(fn)
    for bi, (lst, path, owner) in enumerate(allb):
        for i, s in enumerate(lst):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                    s.value, ast.IfExp):
                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    e = s.value
                    a, b = copy.deepcopy(s), copy.deepcopy(s)
                    a.value, b.value = e.body, e.orelse
                    lst[i] = ast.copy_location(ast.If(e.test, [a], [b]), s)
                    return []
                yield "conditional expression to if", s.lineno, apply
            if isinstance(s, ast.If) and len(s.body) == 1 and \
                    len(s.orelse) == 1 and all(
                        isinstance(x, ast.Assign) and len(x.targets) == 1
                        and isinstance(x.targets[0], (ast.Name,
                                                      ast.Attribute))
                        for x in (s.body[0], s.orelse[0])) and ast.dump(
                        s.body[0].targets[0]) == ast.dump(
                        s.orelse[0].targets[0]):
                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    lst[i] = ast.copy_location(ast.Assign(
                        s.body[0].targets, ast.IfExp(
                            s.test, s.body[0].value, s.orelse[0].value)), s)
                    return []
                yield "if to conditional expression", s.lineno, apply


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise,
                                          ast.Continue, ast.Break))


def t_early(fn, cls):
    allb = blocks(fn)
    for bi, (lst, path, owner) in enumerate(allb):
        for i, s in enumerate(lst):
            if not isinstance(s, ast.If):
                continue
            if s.orelse and ends(s.body):
                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    lst[i + 1:i + 1] = s.orelse
                    s.orelse = []
                    return []
                yield "else after return dropped", s.lineno, apply
            if not s.orelse and ends(s.body) and i + 1 < len(lst):
                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    s.orelse = lst[i + 1:]
                    del lst[i + 1:]
                    return []
                yield "rest moved into else", s.lineno, apply
            if not s.orelse and i == len(lst) - 1 and isinstance(
                    owner, (ast.For, ast.While)) and lst is owner.body:
                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    lst[i:] = [ast.If(ast.UnaryOp(ast.Not(), s.test),
                                      [ast.Continue()], [])] + s.body
                    return []
                yield "guard with continue", s.lineno, apply
            if not s.orelse and i == len(lst) - 1 and owner is fn and \
                    not any(isinstance(x, ast.Return) and x.value
                            is not None for x in ast.walk(fn)):
                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    lst[i:] = [ast.If(ast.UnaryOp(ast.Not(), s.test),
                                      [ast.Return(None)], [])] + s.body
                    return []
                yield "guard with return", s.lineno, apply
            if not s.orelse and isinstance(s.test, ast.BoolOp) and \
                    isinstance(s.test.op, ast.And):
                def apply(c, c2, bi=bi, i=i):
                    s = blocks(c)[bi][0][i]
                    v = s.test.values
                    r = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
                    s.body = [ast.If(r, s.body, [])]
                    s.test = v[0]
                    return []
                yield "condition nested", s.lineno, apply
            if not s.orelse and len(s.body) == 1 and isinstance(
                    s.body[0], ast.If) and not s.body[0].orelse:
                def apply(c, c2, bi=bi, i=i):
                    s = blocks(c)[bi][0][i]
                    k = s.body[0]
                    s.test = ast.BoolOp(ast.And(), [s.test, k.test])
                    s.body = k.body
                    return []
                yield "conditions merged", s.lineno, apply


def t_index_loop(fn, cls):
    allb = blocks(fn)
    for bi, (lst, path, owner) in enumerate(allb):
        for i, s in enumerate(lst):
            if isinstance(s, ast.For) and isinstance(
                    s.iter, (ast.Name,)) and isinstance(
                        s.target, ast.Name) and s.iter.id not in names(
                            ast.Module(s.body, []), ast.Store):
                # only sequences can be indexed: lists built here
                if not any(isinstance(x, ast.Assign) and isinstance(
                        x.targets[0], ast.Name) and x.targets[0].id ==
                        s.iter.id and isinstance(x.value, (
                            ast.List, ast.ListComp, ast.Tuple))
                        for x in ast.walk(fn)):
                    continue

                def apply(c, c2, bi=bi, i=i):
                    s = blocks(c)[bi][0][i]
                    it = s.iter
                    s.body.insert(0, ast.Assign([s.target], ast.Subscript(
                        it, load("_i"), ast.Load())))
                    s.target = store("_i")
                    s.iter = ast.Call(load("range"), [ast.Call(
                        load("len"), [copy.deepcopy(it)], [])], [])
                    return []
                yield "loop by index", s.lineno, apply
            if isinstance(s, ast.For) and isinstance(
                    s.iter, ast.Call) and isinstance(
                        s.iter.func, ast.Name) and \
                    s.iter.func.id == "range" and isinstance(
                        s.target, ast.Name) and len(s.iter.args) == 1 and \
                    not any(isinstance(x, ast.Continue)
                            for x in ast.walk(s)) and not s.orelse and \
                    s.target.id not in names(ast.Module(s.body, []),
                                             ast.Store):
                rest = [x for st in lst[i + 1:] for x in ast.walk(st)]
                if any(isinstance(x, ast.Name) and x.id == s.target.id
                       for x in rest):
                    continue

                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    v = s.target.id
                    lst[i:i + 1] = [
                        ast.Assign([store(v)], ast.Constant(0)),
                        ast.Assign([store("_stop")], s.iter.args[0]),
                        ast.While(ast.Compare(load(v), [ast.Lt()],
                                              [load("_stop")]),
                                  s.body + [ast.AugAssign(
                                      store(v), ast.Add(),
                                      ast.Constant(1))], [])]
                    return []
                yield "for to while", s.lineno, apply


class _Site:
    """Rewrites of single expressions."""


def _expr_sites(fn, match, build, label):
    k = 0
    for n in ast.walk(fn):
        if match(n):
            def apply(c, c2, k=k):
                j = 0
                for m in ast.walk(c):
                    if match(m):
                        if j == k:
                            Replace(m, ast.copy_location(build(m), m)).visit(
                                c)
                            break
                        j += 1
                return []
            yield label, getattr(n, "lineno", fn.lineno), apply
            k += 1


def _is_np(n, attrs, nargs=1):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
        and isinstance(n.func.value, ast.Name) and n.func.value.id in (
            "np", "numpy") and n.func.attr in attrs and \
        len(n.args) == nargs and not n.keywords


def t_exprs(fn, cls):
    def dm(n):
        return isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) \
            and isinstance(n.operand, ast.BoolOp)

    def dmb(n):
        o = n.operand
        return ast.BoolOp(ast.And() if isinstance(o.op, ast.Or)
                          else ast.Or(),
                          [ast.UnaryOp(ast.Not(), v) for v in o.values])
    yield from _expr_sites(fn, dm, dmb, "De Morgan")

    def inn(n):
        return isinstance(n, ast.Compare) and len(n.ops) == 1 and \
            isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                n.comparators[0], (ast.List, ast.Tuple, ast.Set)) and all(
                    isinstance(e, ast.Constant)
                    for e in n.comparators[0].elts) and isinstance(
                        n.left, (ast.Name, ast.Attribute, ast.Constant)) \
            and len(n.comparators[0].elts) >= 2

    def innb(n):
        neg = isinstance(n.ops[0], ast.NotIn)
        return ast.BoolOp(ast.And() if neg else ast.Or(), [
            ast.Compare(n.left, [ast.NotEq() if neg else ast.Eq()], [e])
            for e in n.comparators[0].elts])
    yield from _expr_sites(fn, inn, innb, "membership spelled out")

    def inset(n):
        return isinstance(n, ast.Compare) and len(n.ops) == 1 and \
            isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                n.comparators[0], (ast.List,))

    yield from _expr_sites(fn, inset, lambda n: ast.Compare(
        n.left, n.ops, [ast.Tuple(n.comparators[0].elts, ast.Load())]),
        "list to tuple in membership")
    yield from _expr_sites(
        fn, lambda n: _is_np(n, {"max", "min", "argmin", "argmax", "mean",
                                 "cumsum"})
        and isinstance(n.args[0], (ast.Name, ast.Attribute)),
        lambda n: ast.Call(ast.Attribute(n.args[0], n.func.attr, ast.Load()),
                           [], []), "function to method")
    yield from _expr_sites(
        fn, lambda n: _is_np(n, {"abs"}),
        lambda n: ast.Call(ast.Name("abs", ast.Load()), n.args, []),
        "np.abs to abs")
    yield from _expr_sites(
        fn, lambda n: isinstance(n, ast.BinOp) and isinstance(
            n.op, ast.Pow) and isinstance(n.right, ast.Constant)
        and n.right.value == 2 and pure(n.left),
        lambda n: ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left)),
        "square as product")
    yield from _expr_sites(
        fn, lambda n: isinstance(n, ast.BinOp) and isinstance(
            n.op, (ast.Mult, ast.Add)) and pure(n.left) and pure(n.right)
        and not any(isinstance(x, (ast.List, ast.Constant, ast.JoinedStr))
                    and not isinstance(getattr(x, "value", 0), (int, float))
                    for x in (n.left, n.right))
        and isinstance(n.op, ast.Mult),
        lambda n: ast.BinOp(n.right, n.op, n.left), "product commuted")
    yield from _expr_sites(
        fn, lambda n: isinstance(n, ast.Compare) and len(n.ops) == 2
        and pure(n),
        lambda n: ast.BoolOp(ast.And(), [
            ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]),
            ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]],
                        [n.comparators[1]])]), "chain split")
    yield from _expr_sites(
        fn, lambda n: isinstance(n, ast.Dict) and n.keys and all(
            isinstance(k, ast.Constant) and isinstance(k.value, str)
            and k.value.isidentifier() for k in n.keys),
        lambda n: ast.Call(load("dict"), [], [
            ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)]),
        "dict literal to call")
    yield from _expr_sites(
        fn, lambda n: isinstance(n, ast.IfExp),
        lambda n: ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse,
                            n.body), "conditional inverted")


def t_stmts(fn, cls):
    allb = blocks(fn)
    for bi, (lst, path, owner) in enumerate(allb):
        for i, s in enumerate(lst):
            if isinstance(s, ast.AugAssign) and isinstance(
                    s.target, (ast.Name,)) and isinstance(
                        s.value, ast.Constant):
                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    lst[i] = ast.copy_location(ast.Assign(
                        [s.target], ast.BinOp(load(s.target.id), s.op,
                                              s.value)), s)
                    return []
                yield "augmented assignment spelled out", s.lineno, apply
            if isinstance(s, ast.Assign) and isinstance(
                    s.value, ast.Dict) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name) and s.value.keys \
                    and all(k is not None for k in s.value.keys) and \
                    s.targets[0].id not in names(s.value, ast.Load):
                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    d = s.value
                    new = [ast.Assign([ast.Subscript(
                        load(s.targets[0].id), k, ast.Store())], v)
                        for k, v in zip(d.keys, d.values)]
                    s.value = ast.Dict([], [])
                    lst[i + 1:i + 1] = new
                    return []
                yield "dict filled by statements", s.lineno, apply
            if isinstance(s, ast.Expr) and isinstance(
                    s.value, ast.Call) and isinstance(
                        s.value.func, ast.Attribute) and \
                    s.value.func.attr == "update" and \
                    len(s.value.args) == 1 and isinstance(
                        s.value.args[0], ast.Dict) and all(
                            k is not None for k in s.value.args[0].keys):
                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    d = s.value.args[0]
                    lst[i:i + 1] = [ast.Assign([ast.Subscript(
                        copy.deepcopy(s.value.func.value), k, ast.Store())],
                        v) for k, v in zip(d.keys, d.values)]
                    return []
                yield "update spelled out", s.lineno, apply
            if isinstance(s, ast.Assign) and isinstance(
                    s.targets[0], ast.Tuple) and len(s.targets) == 1 and \
                    isinstance(s.value, ast.Call) and all(
                        isinstance(e, ast.Name) for e in
                        s.targets[0].elts):
                def apply(c, c2, bi=bi, i=i):
                    lst = blocks(c)[bi][0]
                    s = lst[i]
                    t = s.targets[0].elts
                    s.targets = [store("_pair")]
                    lst[i + 1:i + 1] = [ast.Assign([e], ast.Subscript(
                        load("_pair"), ast.Constant(j), ast.Load()))
                        for j, e in enumerate(t)]
                    return []
                yield "tuple kept then indexed", s.lineno, apply


def t_whole(fn, cls):
    from .sensitivity import neutral
    for lab, ln, ed in neutral(fn):
        def apply(c, c2, ed=ed):
            ed(c)
            return []
        yield lab, ln, apply


TRANSFORMS = [t_whole, t_extract_block, t_extract_expr, t_name_expr,
              t_inline_temp, t_loop_to_comp, t_comp_to_loop, t_swap, t_ifexp,
              t_early, t_index_loop, t_exprs, t_stmts]


def rewrites(fn, cls):
    for t in TRANSFORMS:
        for lab, ln, ap in t(fn, cls):
            yield t.__name__, lab, ln, ap


class Applied:
    """Context in which the package has one rewritten function."""

    def __init__(self, repo, fi, ap):
        self.repo, self.fi, self.ap = repo, fi, ap

    def __enter__(self):
        from .model import FuncInfo
        fi = self.fi
        self.old = fi.node
        c = copy.deepcopy(self.old)
        hs = self.ap(c, fi.cls)
        ast.fix_missing_locations(c)
        self.added = []
        for where, h in hs:
            h.lineno = c.lineno
            ast.copy_location(h, c)
            ast.fix_missing_locations(h)
            if where == "cls":
                fi.cls.methods[h.name] = FuncInfo(h, fi.module, fi.cls)
                self.added.append((fi.cls.methods, h.name))
            else:
                fi.module.functions[h.name] = FuncInfo(h, fi.module)
                self.added.append((fi.module.functions, h.name))
        fi.node = c
        self.new, self.helpers = c, hs
        self.clear()
        return self

    def clear(self):
        for k in ("_direct", "_effects", "_family"):
            self.repo.__dict__.pop(k, None)

    def text(self):
        return "\n".join(ast.unparse(ast.fix_missing_locations(x)) for x in
                         [h for _, h in self.helpers] + [self.new])

    def __exit__(self, *a):
        self.fi.node = self.old
        for d, n in self.added:
            del d[n]
        self.clear()
