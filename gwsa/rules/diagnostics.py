"""E16: diagnostics never influence the measurement.

(a) information flow: what the public operations return and the attributes
    the measurement reads do not depend on debug_plots, debug_level, verbose
    or return_diagnostic_data (raising is not a flow for debug_level);
(b) effects: functions that only serve diagnostics change nothing that hangs
    on the measurement object, and assign no attribute the measurement reads.
"""
import ast
from ..alias import Analysis, root
from ..model import FuncInfo, AnalysisBroken
from ..report import Finding
from ..taint import Flow, Func, SOURCES
from . import ownership

PREFIX = ("plot", "check_", "make_diagnostic", "save_debug", "debug_",
          "get_label", "_plot", "_check", "_debug", "_make_diagnostic")
# part of the measurement in spite of the name
LOGIC = {"check_num_extrema", "check_input_limits",
         "check_if_first_derivative_is_not_strictly_monotonic",
         "check_and_raise_zeroecc_data_not_found", "check_filter_requirement",
         "check_and_filter_spin_induced_oscillations", "check_sxs_data_dir",
         "check_kwargs_and_set_defaults"}
# what users read off the measurement object
RESULTS = ("eccentricity mean_anomaly tref_out fref_out t amp_gw phase_gw "
           "omega_gw pericenters_location apocenters_location "
           "omega_gw_pericenters_interp omega_gw_apocenters_interp "
           "e_omega_gw data_for_finding_extrema t_apocenters t_pericenters "
           "tmin tmax tref_in fref_in phase_gw_pericenters "
           "phase_gw_apocenters").split()
# filled in when first needed; what they are filled with is an obligation of
# the value-flow check of the functions named
MEMO = {
    "ecc_for_checks": {"plot_eccentricity"},
    "decc_dt_for_checks": {"plot_decc_dt",
                           "check_monotonicity_and_convexity"},
    "t_for_omega_gw_average": {"plot_omega_gw_average"},
    "omega_gw_average": {"plot_omega_gw_average"},
}


def facts(repo):
    r = repo.__dict__.get("_rule_diag")
    if r is None:
        r = repo.__dict__["_rule_diag"] = Facts(repo)
    return r


class Facts:
    def __init__(self, repo):
        self.repo = repo
        public = {id(f.node) for f in ownership.entries(repo)}
        self.flow = fl = Flow(repo, public=public)
        self.byid = {id(f.node): f for f in fl.funcs}
        callers, self.loads = {}, {}
        for f in fl.funcs:
            fn = Func(fl, f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    for t in fn.targets(n):
                        if isinstance(t, FuncInfo):
                            callers.setdefault(id(t.node), set()).add(
                                id(f.node))
        self.diag = {id(f.node) for f in fl.funcs
                     if f.name.startswith(PREFIX) and f.name not in LOGIC}
        while True:
            more = {k for k, c in callers.items() if k not in public and
                    k not in self.diag and c <= self.diag and
                    self.byid[k].name != "__init__"}
            if not more:
                break
            self.diag |= more
        for key, fs in fl.used.items():
            for i, f in fs.items():
                if i not in self.diag:
                    self.loads.setdefault(key, f)
        self.public = public
        self.callers = callers

    def within(self, f, names):
        """f is one of the named functions or only called from them."""
        todo, seen = [id(f.node)], set()
        while todo:
            i = todo.pop()
            if i in seen or self.byid[i].name in names:
                continue
            seen.add(i)
            c = self.callers.get(i)
            if not c or i in self.public:
                return False
            todo += list(c)
        return True


def rule(repo, prop):
    k = facts(repo)
    fl = k.flow
    n = 0
    bad = []
    for i in k.public:
        f = k.byid.get(i)
        if f is None or i in k.diag:
            continue
        n += 1
        if i in fl.ret:
            bad.append((fl.site(fl.ret, i), f.qual,
                        f"the result depends on {fl.ret[i]}"))
        else:
            yield Finding("diagnostics-flow", f.qual, "holds", f.where)
    if n < 40:
        raise AnalysisBroken("most of the public operations are gone")
    for (fam, a), f in sorted(k.loads.items()):
        if a in SOURCES:
            continue
        key = (fam, a)
        if key in fl.attr:
            w = fl.site(fl.attr, key)
            bad.append((w, f"{fam} attribute {a}",
                        f"assigned in {w[2]} depending on {fl.attr[key]}, "
                        f"used in {f.qual}"))
        else:
            yield Finding("diagnostics-flow", f"{fam} attribute {a}",
                          "holds", f.where)
    for key in fl.attr:
        if key not in k.loads and key[1] in RESULTS:
            w = fl.site(fl.attr, key)
            bad.append((w, f"{key[0]} attribute {key[1]}",
                        f"assigned in {w[2]} depending on {fl.attr[key]}"))
    # the first ones found are closest to the origin of the dependence
    bad.sort(key=lambda x: x[0][3])
    for w, name, text in bad[:5]:
        if len(bad) > 5:
            text += f" ({len(bad)} values are affected in all)"
        yield Finding("diagnostics-flow", name, "violation",
                      f"{w[0]}:{w[1]}", text)
    for key in fl.raised:
        w = fl.site(fl.raised, key)
        fs = [f for f in fl.funcs if f.qual == w[2]]
        if not any(id(f.node) in k.diag for f in fs):
            yield Finding("diagnostics-raise", w[2], "violation",
                          f"{w[0]}:{w[1]}",
                          f"raises depending on {fl.raised[key]}")
    yield from effects_of(repo, k)


def effects_of(repo, k):
    an = Analysis(repo)
    other = set()
    for f in k.flow.funcs:
        if id(f.node) in k.diag:
            continue
        me = self_name(f)
        for o, sites in an.summary(f).muts.items():
            if me and root(o) == ("P", me):
                other |= {(o[0] == "in" and strip(o), s) for s in sites}
    for f in k.flow.funcs:
        if id(f.node) not in k.diag:
            continue
        s = an.summary(f)
        me = self_name(f)
        bad = []
        if me:
            for o, sites in s.muts.items():
                if root(o) != ("P", me):
                    continue
                for key, site in sites.items():
                    if (o[0] == "in" and strip(o), key) not in other:
                        bad.append((f"{site.relpath}:{site.line}",
                                    f"{site.what}, which belongs to the "
                                    "measurement"))
            fam = k.flow.fam(f.cls)
            for n in ast.walk(f.node):
                a = written(n, me)
                if a in MEMO and k.within(f, MEMO[a]):
                    continue
                if a and ((fam, a) in k.loads or a in RESULTS):
                    r = k.loads.get((fam, a))
                    bad.append((f"{f.module.relpath}:{n.lineno}",
                                f"assigns {a}" + (
                                    f", which {r.qual} uses" if r else "")))
        for w, text in sorted(set(bad))[:3]:
            yield Finding("diagnostics-effect", f.qual, "violation", w, text)
        if not bad:
            yield Finding("diagnostics-effect", f.qual, "holds", f.where)


def strip(o):
    """Outermost attribute that the object hangs on."""
    while o[0] == "in" and o[1][0] == "in":
        o = o[1]
    return o[2] if o[0] == "in" else None


def self_name(f):
    a = f.node.args.posonlyargs + f.node.args.args
    return a[0].arg if f.cls is not None and a and \
        "staticmethod" not in f.decorators else None


def written(n, me):
    if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and \
            isinstance(n.value, ast.Name) and n.value.id == me:
        return n.attr
    if isinstance(n, ast.Call) and getattr(n.func, "id", "") in (
            "setattr", "delattr") and len(n.args) > 1 and isinstance(
            n.args[0], ast.Name) and n.args[0].id == me and isinstance(
            n.args[1], ast.Constant):
        return n.args[1].value
    return None


RULES = {"E16": rule}
