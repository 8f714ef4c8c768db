"""Development driver: apply every behaviour-preserving rewrite and list the
rule instances (not value-flow obligations) that change to a violation.

    python3 -m gwsa.rulerobust ROOT MODULE-SUBSTRING SECONDS PROP[,PROP]
"""
import os
import random
import sys
import time
from .model import Repo
from .report import rule_modules
from .robust import functions
from . import refactor


def forget(repo):
    for k in ("_alias", "_direct", "_effects", "_family", "_shared",
              "_own_attrs", "_ctor_attrs", "_alias_an"):
        repo.__dict__.pop(k, None)
    for k in [k for k in repo.__dict__ if k.startswith("_rule_")]:
        repo.__dict__.pop(k)


def decide(repo, props):
    forget(repo)
    out = {}
    mods = rule_modules()
    for p in props:
        for f in mods.get(p, ()):
            for x in f(repo, p):
                out[(p, x.key())] = x
    return out


def main():
    root, sub, budget = sys.argv[1], sys.argv[2], float(sys.argv[3])
    props = sys.argv[4].split(",")
    show = len(sys.argv) > 5
    repo = Repo(root)
    base = decide(repo, props)
    jobs = []
    for f in functions(repo):
        if sub in f.module.name + ":" + f.qual:
            for t, lab, ln, ap in refactor.rewrites(f.node, f.cls):
                jobs.append((f, t, lab, ln, ap))
    random.Random(int(os.environ.get("RSEED", "1"))).shuffle(jobs)
    t0, n, st = time.time(), 0, {}
    for f, t, lab, ln, ap in jobs:
        if time.time() - t0 > budget:
            break
        n += 1
        ctx = refactor.Applied(repo, f, ap)
        try:
            ctx.__enter__()
            now = decide(repo, props)
            txt = ctx.text() if show else ""
        except Exception as e:
            print("CANNOT", lab, f, ln, type(e).__name__, e)
            if hasattr(ctx, "added"):
                ctx.__exit__()
            continue
        ctx.__exit__()
        bad = [x for k, x in now.items() if x.status == "violation" and
               (k not in base or base[k].status != "violation")]
        und = [x for k, x in now.items() if x.status == "undecided" and
               (k not in base or base[k].status != "undecided")]
        r = "ALARM" if bad else "undecided" if und else "ok"
        d = st.setdefault(t, {})
        d[r] = d.get(r, 0) + 1
        if bad or und:
            x = (bad or und)[0]
            print(r, lab, f.module.relpath, ln, f.qual, x.key(),
                  x.detail[:300])
            if show:
                print(txt)
            sys.stdout.flush()
    print(n, "of", len(jobs), "tried", int(time.time() - t0), "s")
    for t, d in sorted(st.items()):
        print("  ", t, d)


if __name__ == "__main__":
    main()
