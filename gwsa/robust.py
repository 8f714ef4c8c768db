"""Development driver: apply every behaviour-preserving rewrite and list the
obligations that report or stop deciding."""
import random
import sys
import time
from .model import Repo
from .spec import load_specs, check_spec, Vocabulary, resolve_target
from . import refactor


def visited(repo, specs):
    """{id(FuncInfo.node): [specs]} of functions evaluated by each spec."""
    from .spec import run_spec
    out = {}
    for s in specs:
        try:
            fi, r1, r2, sa, ia = run_spec(repo, s)
        except Exception:
            continue
        v = {id(f.node) for f in r2.it.inlined.values()} | {id(fi.node)}
        for k in v:
            out.setdefault(k, []).append(s)
    return out


def functions(repo):
    for m in repo.modules.values():
        for f in m.functions.values():
            yield f
        for c in m.classes.values():
            for f in c.methods.values():
                yield f


def main():
    root, sub, budget = sys.argv[1], sys.argv[2], float(sys.argv[3])
    trans = sys.argv[4] if len(sys.argv) > 4 else ""
    show = len(sys.argv) > 5
    repo = Repo(root)
    specs = load_specs(repo)
    vis = visited(repo, specs)
    jobs = []
    for f in functions(repo):
        if sub not in f.module.name + ":" + f.qual:
            continue
        ss = vis.get(id(f.node), [])
        if not ss:
            continue
        for t, lab, ln, ap in refactor.rewrites(f.node, f.cls):
            if trans in t + lab:
                jobs.append((f, t, lab, ln, ap, ss))
    random.Random(int(__import__("os").environ.get("RSEED", "1"))).shuffle(
        jobs)
    t0 = time.time()
    base, st = {}, {}
    n = 0
    for f, t, lab, ln, ap, ss in jobs:
        if time.time() - t0 > budget:
            break
        n += 1
        ss = ss[:6]

        def run():
            out = {}
            for s in ss:
                for o in check_spec(repo, s, s.all_props(),
                                    Vocabulary())[0]:
                    out[(s.target + s.opts.get("name", ""), o.obs)] = o
            return out
        for s in ss:
            if id(s) not in base:
                base[id(s)] = {}
                for o in check_spec(repo, s, s.all_props(),
                                    Vocabulary())[0]:
                    base[id(s)][(s.target + s.opts.get("name", ""),
                                 o.obs)] = o.status
        b = {}
        for s in ss:
            b.update(base[id(s)])
        try:
            ctx = refactor.Applied(repo, f, ap)
            ctx.__enter__()
        except Exception as e:
            print("CANNOT APPLY", lab, f, ln, type(e).__name__, e)
            ctx.__exit__() if hasattr(ctx, "added") else None
            continue
        try:
            now = run()
            txt = ctx.text()
        finally:
            ctx.__exit__()
        bad = [(k, o) for k, o in now.items()
               if o.status == "violation" and b.get(k) != "violation"]
        und = [(k, o) for k, o in now.items()
               if o.status == "undecided" and b.get(k) != "undecided"]
        r = "ALARM" if bad else "undecided" if und else "ok"
        d = st.setdefault(t, {})
        d[r] = d.get(r, 0) + 1
        if bad or und:
            k, o = (bad or und)[0]
            print(r, lab, f.module.relpath, ln, f.qual, k, o.detail[:500]
                  if bad else o.detail[:160])
            if show:
                print(txt)
            sys.stdout.flush()
    print(n, "of", len(jobs), "tried", int(time.time() - t0), "s")
    for t, d in sorted(st.items()):
        print("  ", t, d)


if __name__ == "__main__":
    main()
