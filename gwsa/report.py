"""Decide one property, print the findings, write the evidence."""
import importlib
import json
import os
import pkgutil
import re
import time

from .model import Repo, AnalysisBroken
from .spec import load_specs, check_spec, Vocabulary
from . import rules

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Finding:
    """Outcome of one obligation of a property."""

    def __init__(self, rule, construct, status, where="", detail=""):
        self.rule, self.construct, self.status = rule, construct, status
        self.where, self.detail = where, detail

    def key(self):
        return f"{self.rule} {self.construct}"


def rule_modules():
    out = {}
    for m in pkgutil.iter_modules(rules.__path__):
        mod = importlib.import_module("gwsa.rules." + m.name)
        for p, f in getattr(mod, "RULES", {}).items():
            for q in p.split():
                out.setdefault(q, []).append(f)
    return out


def findings(prop, repo, specs, cache=None):
    """[Finding], analysed functions."""
    out, funcs = [], []
    for s in specs:
        if prop not in s.all_props():
            continue
        label = s.target + (" [" + s.opts["name"] + "]"
                            if "name" in s.opts else "")
        if cache is not None and id(s) in cache:
            outs = cache[id(s)]
        else:
            outs = check_spec(repo, s, s.all_props(), Vocabulary())[0]
            if cache is not None:
                cache[id(s)] = outs
        n = 0
        for o in outs:
            if o.props is not None and prop not in o.props:
                continue
            n += 1
            out.append(Finding("value-flow", f"{label} {o.obs}", o.status,
                               o.where, o.detail))
        if n:
            funcs.append(label)
    for f in rule_modules().get(prop, ()):
        try:
            for x in f(repo, prop):
                out.append(x)
        except AnalysisBroken as e:
            out.append(Finding("rule", f.__module__, "undecided", "",
                               str(e)))
        except Exception as e:
            out.append(Finding("rule", f.__module__, "undecided", "",
                               f"{type(e).__name__}: {e}"))
    return out, funcs


def known(prop):
    """Listed findings of the property: [(rule+construct key, text)]."""
    out = []
    if not os.path.exists(KNOWN):
        return out
    for l in open(KNOWN, encoding="utf-8"):
        l = l.strip()
        m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def check(prop, root, tier, seed, evidence=True):
    t0 = time.time()
    repo = Repo(root)
    specs = load_specs(repo)
    fs, funcs = findings(prop, repo, specs)
    extra = {}
    if tier == "thorough":
        try:
            from . import sensitivity
        except ImportError:
            sensitivity = None
        if sensitivity is not None:
            extra = sensitivity.run(prop, root, seed)
    kn = known(prop)
    viol, knownhit, und = [], [], []
    for f in fs:
        if f.status == "violation":
            hit = [k for k in kn if k[0] == f.key()]
            if hit:
                knownhit.append((f, hit[0]))
            else:
                viol.append(f)
        elif f.status == "undecided":
            und.append(f)
    holds = sum(f.status == "holds" for f in fs)
    if not holds and not viol:
        raise AnalysisBroken(f"no obligation of {prop} could be decided")
    for f, (k, text) in knownhit:
        print(f"KNOWN-FINDING: property={prop} {text} ({f.where})")
    for f in und:
        print(f"UNDECIDED {f.key()}: {f.detail} ({f.where})")
    rep = ""
    if viol:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, prop + ".json")
        with open(rep, "w", encoding="utf-8") as h:
            json.dump({"property": prop, "command":
                       f"cd {VERIF} && python3 -m gwsa check {prop}",
                       "findings": [
                           {"rule": f.rule, "construct": f.construct,
                            "where": f.where, "detail": f.detail}
                           for f in viol]}, h, indent=1)
        for f in viol:
            print(f"{f.where}: [{f.rule}] {f.construct}: {f.detail}")
    decided = holds + len(viol) + len(knownhit)
    print(f"{prop}: {len(fs)} obligations, {holds} hold, {len(viol)} "
          f"violated, {len(knownhit)} known, {len(und)} undecided "
          f"({time.time() - t0:.1f} s)")
    if evidence:
        write_evidence(prop, tier, seed, repo, fs, funcs, viol, knownhit,
                       und, extra, time.time() - t0)
    if viol:
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    if not decided:
        print(f"ANALYSIS-BROKEN: nothing could be decided for {prop}")
        return 2
    return 0


def write_evidence(prop, tier, seed, repo, fs, funcs, viol, knownhit, und,
                   extra, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    byrule = {}
    for f in fs:
        b = byrule.setdefault(f.rule, {"obligations": 0, "hold": 0,
                                       "undecided": 0, "violated": 0,
                                       "known": 0})
        b["obligations"] += 1
        b[{"holds": "hold", "violation": "violated"}.get(
            f.status, f.status)] += 1
    for f, _ in knownhit:
        byrule[f.rule]["violated"] -= 1
        byrule[f.rule]["known"] += 1
    cov = {
        "explanation":
            "Static analysis of /repo's current source (no execution). Each "
            "obligation compares one observable of one function - its "
            "result, the conditions under which it raises, an attribute or "
            "a call it makes - computed by value-flow analysis (global "
            "value numbering with gated phi functions over the syntax tree, "
            "helpers inlined) with the same observable of a reference "
            "definition that states the property, or is one instance of a "
            "rule (named below).  'holds': equal for all inputs in the "
            "algebra of the analysis; 'undecided': the code uses a "
            "construct the analysis does not model.",
        "modules_parsed": len(repo.modules),
        "functions_analysed": len(funcs),
        "functions": funcs,
        "obligations": len(fs),
        "by_rule": byrule,
        "samples": [f"{f.status}: {f.key()} ({f.where})" for f in fs[:12]],
        "undecided": [f"{f.key()}: {f.detail}" for f in und],
        "known_findings": [f"{f.key()} ({f.where})" for f, _ in knownhit],
        "violated": [f"{f.where}: {f.key()}: {f.detail}"[:2000]
                     for f in viol],
    }
    cov.update(extra)
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough")
          else "quick", "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ASSUMPTIONS, "wall_s": round(wall, 3),
          "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w",
              encoding="utf-8") as h:
        json.dump(ev, h, indent=1)


ASSUMPTIONS = [
    "numpy, scipy, h5py, matplotlib and the standard library behave as "
    "documented; arithmetic is treated as exact (rounding is not modelled)",
    "the reference definitions under gwsa/specs and the rule tables state "
    "the property correctly",
    "objects are not changed through reflection or by other threads",
]


def listing(root):
    repo = Repo(root)
    for s in load_specs(repo):
        print(s.target, sorted(s.all_props()))
    return 0


def check_all(root, props):
    repo = Repo(root)
    specs = load_specs(repo)
    cache = {}
    ps = props or sorted({p for s in specs for p in s.all_props()} |
                         set(rule_modules()))
    rc = 0
    for p in ps:
        fs, funcs = findings(p, repo, specs, cache)
        c = {}
        for f in fs:
            c[f.status] = c.get(f.status, 0) + 1
        kn = {k for k, _ in known(p)}
        print(p, len(funcs), "functions", c)
        for f in fs:
            if f.status != "holds":
                tag = "known" if f.key() in kn else f.status
                if tag == "violation":
                    rc = 1
                print("   ", tag, f.key(), f.where, f.detail[:600])
    return rc
