"""Sensitivity of the references: mutate the analysed functions in memory
(the syntax tree only; nothing is executed, nothing is written) and decide
the obligations again.  Neutral rewrites must stay quiet, breaking rewrites
should be reported."""
import ast
import copy
import os
import pickle
import random
import time

from .model import Repo, FuncInfo
from .spec import load_specs, check_spec, Vocabulary, resolve_target

SILENT = {"debug_message", "print", "warn", "info", "warning", "error",
          "debug", "savefig", "format_warning", "formatwarning"}
SWAP_ATTR = {"max": "min", "min": "max", "argmin": "argmax",
             "argmax": "argmin", "sin": "cos", "cos": "sin",
             "nanmax": "nanmin", "append": "extend", "arctan2": "hypot"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult}
WORDS = [("pericenter", "apocenter"), ("amp", "omega"), ("left", "right"),
         ("min", "max"), ("first", "last"), ("omega", "phase"),
         ("fref", "tref"), ("egw", "lgw")]


def silent(n):
    if isinstance(n, ast.Call):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        return nm in SILENT
    return isinstance(n, ast.Raise)


def sites(fn):
    """Live nodes of a function, without messages and documentation."""
    out = []

    def rec(n, parent, field, i):
        if silent(n) and not isinstance(n, ast.Raise):
            return
        out.append((n, parent, field, i))
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.arguments):
            return
        for f, v in ast.iter_fields(n):
            if f in ("decorator_list", "returns", "annotation"):
                continue
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        if isinstance(x, ast.Expr) and isinstance(
                                x.value, ast.Constant):
                            continue
                        rec(x, n, f, j)
            elif isinstance(v, ast.AST):
                rec(v, n, f, None)
    for j, s in enumerate(fn.body):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        rec(s, fn, "body", j)
    return out


def put(parent, field, i, new):
    if i is None:
        setattr(parent, field, new)
    else:
        getattr(parent, field)[i] = new


def breaking(fn):
    """[(label, line, function applied to a copy of fn)] of changes that
    normally change behaviour."""
    out = []
    ss = sites(fn)
    for k, (n, p, f, i) in enumerate(ss):
        ln = getattr(n, "lineno", fn.lineno)

        def edit(g, k=k):
            def apply(c):
                m, pp, ff, ii = sites(c)[k]
                g(m, pp, ff, ii)
                ast.fix_missing_locations(c)
            return apply
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in CMP:
            out.append(("compare", ln, edit(lambda m, *_: m.ops.__setitem__(
                0, CMP[type(m.ops[0])]()))))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append(("operator", ln, edit(lambda m, *_: setattr(
                m, "op", BIN[type(m.op)]()))))
        elif isinstance(n, ast.BoolOp):
            out.append(("and/or", ln, edit(lambda m, *_: setattr(
                m, "op", ast.And() if isinstance(m.op, ast.Or)
                else ast.Or()))))
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.USub, ast.Invert)):
            out.append(("unary", ln, edit(
                lambda m, pp, ff, ii: put(pp, ff, ii, m.operand))))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                out.append(("flag", ln, edit(lambda m, *_: setattr(
                    m, "value", not m.value))))
            elif isinstance(v, (int, float)):
                out.append(("constant", ln, edit(lambda m, *_: setattr(
                    m, "value", m.value + 1))))
            elif isinstance(v, str) and isinstance(
                    p, (ast.Subscript, ast.Compare, ast.Dict)):
                for a, b in WORDS:
                    if a in v or b in v:
                        x, y = (a, b) if a in v else (b, a)
                        out.append(("key", ln, edit(
                            lambda m, *_, x=x, y=y: setattr(
                                m, "value", m.value.replace(x, y)))))
                        break
        elif isinstance(n, ast.Attribute):
            if n.attr in SWAP_ATTR:
                out.append(("function", ln, edit(lambda m, *_: setattr(
                    m, "attr", SWAP_ATTR[m.attr]))))
            else:
                for a, b in WORDS[:3]:
                    if a in n.attr or b in n.attr:
                        x, y = (a, b) if a in n.attr else (b, a)
                        out.append(("attribute", ln, edit(
                            lambda m, *_, x=x, y=y: setattr(
                                m, "attr", m.attr.replace(x, y)))))
                        break
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(
                isinstance(a, ast.Starred) for a in n.args[:2]):
            out.append(("argument order", ln, edit(
                lambda m, *_: m.args.__setitem__(
                    slice(0, 2), [m.args[1], m.args[0]]))))
        elif isinstance(n, ast.If):
            out.append(("condition", ln, edit(lambda m, *_: setattr(
                m, "test", ast.UnaryOp(ast.Not(), m.test)))))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                          ast.Break, ast.Continue, ast.Delete)) and not (
                isinstance(n, ast.Expr) and silent(n.value)):
            out.append(("statement dropped", ln, edit(
                lambda m, pp, ff, ii: put(pp, ff, ii, ast.Pass()))))
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            n.id = self.names[n.id]
        return n


def local_names(fn):
    """Names bound by plain assignment or loops, not shared with nested
    functions or parameters."""
    a = fn.args
    params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
    if a.vararg:
        params.add(a.vararg.arg)
    if a.kwarg:
        params.add(a.kwarg.arg)
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            params |= {x.arg for x in n.args.args}
            params.add(getattr(n, "name", ""))
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            params |= set(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            params.add(n.name)
    return sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name)
                   and isinstance(n.ctx, ast.Store)} - params)


def neutral(fn):
    """[(label, line, edit)] of rewrites that keep the behaviour."""
    out = []

    def noop(c):
        c.body.insert(1 if len(c.body) > 1 else 0, ast.parse(
            "_unused = None").body[0])
        ast.fix_missing_locations(c)
    out.append(("unused statement", fn.lineno, noop))
    names = local_names(fn)
    if names:
        def ren(c):
            Rename({n: n + "_renamed" for n in names}).visit(c)
        out.append(("locals renamed", fn.lineno, ren))

    class Inv(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse:
                return ast.copy_location(ast.If(
                    ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body), n)
            return n

    def inv(c):
        Inv().visit(c)
        ast.fix_missing_locations(c)
    if any(isinstance(n, ast.If) and n.orelse for n in ast.walk(fn)):
        out.append(("if/else inverted", fn.lineno, inv))

    class Flip(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
                  ast.GtE: ast.LtE}
            if len(n.ops) == 1 and type(n.ops[0]) in sw:
                return ast.copy_location(ast.Compare(
                    n.comparators[0], [sw[type(n.ops[0])]()], [n.left]), n)
            return n

    def flip(c):
        Flip().visit(c)
        ast.fix_missing_locations(c)
    if any(isinstance(n, ast.Compare) for n in ast.walk(fn)):
        out.append(("comparisons flipped", fn.lineno, flip))

    class Ret(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            if n is not self.top:
                return n
            return self.generic_visit(n)

        def visit_Lambda(self, n):
            return n

        def visit_Return(self, n):
            if n.value is None or isinstance(n.value, ast.Name):
                return n
            return [ast.copy_location(ast.Assign(
                [ast.Name("_value", ast.Store())], n.value), n),
                ast.copy_location(ast.Return(
                    ast.Name("_value", ast.Load())), n)]

    def ret(c):
        r = Ret()
        r.top = c
        r.visit(c)
        ast.fix_missing_locations(c)
    out.append(("result named", fn.lineno, ret))
    return out


def statuses(repo, specs):
    out = {}
    for s in specs:
        for o in check_spec(repo, s, s.all_props(), Vocabulary())[0]:
            nm = s.target + s.opts.get("name", "")
            out[(nm, o.obs)] = (o.status, o.props, o.detail)
    return out


def apart(f, *args):
    """f(*args) in a process of its own: its memory is given back."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = pickle.dumps(f(*args))
        except BaseException:
            out = pickle.dumps({})
        with os.fdopen(w, "wb") as h:
            h.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else {}


def affected(repo, specs, fi):
    """References whose target is (or may inline) the function."""
    direct = []
    for s in specs:
        try:
            if resolve_target(repo, s.target) is fi:
                direct.append(s)
        except Exception:
            pass
    return direct


def run(prop, root, seed, budget=600, limit=150, log=None, only=None):
    """Coverage data for the evidence file."""
    rng = random.Random(seed)
    t0 = time.time()
    repo = Repo(root)
    allspecs = load_specs(repo)
    mine = [s for s in allspecs if prop is None or prop in s.all_props()]
    fis = {}
    for s in mine:
        try:
            fi = resolve_target(repo, s.target)
        except Exception:
            continue
        if only is None or only in s.target:
            fis.setdefault(id(fi), (fi, []))[1].append(s)
    jobs = []
    for fi, ss in fis.values():
        for kind, gen in (("breaking", breaking), ("neutral", neutral)):
            for lab, ln, ed in gen(fi.node):
                jobs.append((kind, lab, ln, ed, fi, ss))
    rng.shuffle(jobs)
    nb = 0
    res = {"breaking": {"tried": 0, "reported": 0, "not modelled": 0,
                        "unchanged obligations": 0},
           "neutral": {"tried": 0, "reported": 0, "not modelled": 0,
                       "unchanged obligations": 0}}
    survivors, alarms = [], []
    base = {}
    for kind, lab, ln, ed, fi, ss in jobs:
        if time.time() - t0 > budget:
            break
        if kind == "breaking" and limit and nb >= limit:
            continue
        nb += kind == "breaking"
        old = fi.node
        c = copy.deepcopy(old)
        try:
            ed(c)
        except Exception:
            continue
        key = id(fi)
        if key not in base:
            base[key] = {k: v[0] for k, v in statuses(repo, ss).items()}
        fi.node = c
        try:
            now = apart(statuses, repo, ss)
        finally:
            fi.node = old
        r = res[kind]
        r["tried"] += 1
        bad = [k for k, v in now.items() if v[0] == "violation"
               and base[key].get(k) != "violation"]
        und = [k for k, v in now.items() if v[0] == "undecided"
               and base[key].get(k) != "undecided"]
        where = f"{fi.module.relpath}:{ln} {fi.qual}"
        if bad:
            r["reported"] += 1
            if kind == "neutral":
                alarms.append(f"{lab} at {where}: {bad[0]}: "
                              f"{now[bad[0]][2][:300]}")
        elif und:
            r["not modelled"] += 1
            if log is not None:
                log.append((kind, "undecided", lab, where,
                            now[und[0]][2]))
        else:
            r["unchanged obligations"] += 1
            if kind == "breaking":
                survivors.append(f"{lab} at {where}")
                if log is not None:
                    log.append((kind, "survived", lab, where,
                                ast.unparse(c)))
    return {"sensitivity": {
        "explanation": "In-memory rewrites of the analysed functions "
        "(syntax trees only). Breaking rewrites: how many an obligation "
        "reports; the rest are equivalent, outside the obligations or not "
        "modelled. Neutral rewrites: none may be reported.",
        **res, "not reported": survivors[:40], "false alarms": alarms}}


if __name__ == "__main__":
    import sys
    import json
    log = []
    from . import spec as _s
    _s.PER_SPEC, _s.IN_ALL, _s.MEMORY = 20, 1e9, 4 << 30
    r = run(None, sys.argv[1], 1, budget=float(sys.argv[3]) if len(
        sys.argv) > 3 else 600, limit=0, log=log, only=sys.argv[2])
    print(json.dumps({k: v for k, v in r["sensitivity"].items()
                      if k not in ("explanation", "not reported")},
                     indent=1))
    for x in log:
        print(x[0], x[1], x[2], x[3], (x[4][:200] if x[1] == "undecided"
                                       else ""))
