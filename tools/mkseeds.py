"""Create /verif/seeded/<id> from tools/seeds.py and confirm each change.

usage: mkseeds.py [--tests] [id ...]
A change is kept only if its patch applies, touches only lines of the original
repository, its demonstration passes on the unchanged tree and fails with the
change and (--tests) the stable tests pass with it.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
OUT = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "99c839c"
W = os.environ.get("SEEDW", "/tmp/seedw")


def sh(cmd, cwd, **k):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONPATH=cwd,
               OMPI_MCA_ess_singleton_isolated="1",
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True,
                          text=True, **k)


def original_lines():
    """{file: set of line numbers (HEAD) that come from BASE}."""
    out = {}

    def get(f):
        if f not in out:
            r = sh(["git", "blame", "-s", "-l", f"{BASE}..HEAD", "--", f],
                   "/repo")
            s = set()
            for i, l in enumerate(r.stdout.splitlines(), 1):
                if l.startswith("^"):
                    s.add(i)
            out[f] = s
        return out[f]
    return get


def main(argv):
    import seeds
    tests = "--tests" in argv
    ids = [a for a in argv if not a.startswith("-")]
    orig = original_lines()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in seeds.SEEDS:
        if ids and s["id"] not in ids:
            continue
        if os.path.exists(W):
            shutil.rmtree(W)
        shutil.copytree("/repo", W, symlinks=True)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(W, "gw_eccentricity", f)
            t = open(p, encoding="utf-8").read()
            n = t.count(old)
            if n != s.get("count", 1):
                print(s["id"], f"OLD TEXT FOUND {n} TIMES in", f)
                ok = False
                continue
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        if not ok:
            continue
        d = sh(["git", "diff", "-U3"], W).stdout
        # removed lines must be original
        cur, line = None, 0
        for l in d.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("@@"):
                line = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                if line not in orig(cur):
                    print(s["id"], "NOT AN ORIGINAL LINE:", l)
                    ok = False
                line += 1
            elif l.startswith(" "):
                line += 1
        o = os.path.join(OUT, s["id"])
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(d)
        open(os.path.join(o, "demo.py"), "w").write(
            s["demo"].lstrip("\n"))
        if "wf" in s["demo"]:
            shutil.copy(os.path.join(HERE, "seed_wf.py"),
                        os.path.join(o, "wf.py"))
        sf = os.path.join(o, "demo.sh")
        open(sf, "w").write(
            "#!/bin/bash\n# run with cwd /repo\n"
            "export MPLBACKEND=Agg OMPI_MCA_ess_singleton_isolated=1 "
            "PYTHONDONTWRITEBYTECODE=1\n"
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(sf, 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(os.path.join(o, "meta.json"), "w"), indent=1)
        a = sh(["bash", sf], "/repo")
        b = sh(["bash", sf], W)
        tail = (b.stdout + b.stderr).strip().splitlines()[-1:]
        msg = f"demo {a.returncode}/{b.returncode} {tail}"
        if a.returncode:
            msg += " CLEAN: " + (a.stdout + a.stderr)[-800:]
        if tests and ok and not a.returncode and b.returncode:
            r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
                    "no:cacheprovider", "-n", "8", "--dist", "worksteal",
                    "--timeout=600", "--ignore=test/test_nr_precessing.py",
                    "--ignore=test/test_example_notebooks.py", "-x", "test"],
                   W)
            msg += " tests " + r.stdout.strip().splitlines()[-1]
        print(s["id"], s["prop"], "OK" if ok else "BAD", msg, flush=True)
    if os.path.exists(W):
        shutil.rmtree(W)


main(sys.argv[1:])
