"""Writes gwsa/data/libnames.json: the names the installed libraries define.

Run once with the interpreter of the package:
    /opt/venv/bin/python tools/mklibnames.py
"""
import ast
import importlib
import inspect
import json
import pathlib
import sys
import types

here = pathlib.Path(__file__).parent.parent
sys.path.insert(0, str(here))
mods = set()
for p in pathlib.Path("/repo/gw_eccentricity").rglob("*.py"):
    t = ast.parse(p.read_text())
    for n in ast.walk(t):
        if isinstance(n, ast.Import):
            mods |= {a.name for a in n.names}
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            mods.add(n.module)
mods |= {"numpy.linalg", "numpy.random", "numpy.fft", "numpy.ma",
         "scipy.signal", "scipy.interpolate", "scipy.optimize",
         "scipy.integrate", "scipy.special", "os.path", "itertools",
         "mpi4py.MPI", "functools", "collections", "math", "copy", "typing", "pathlib"}
mods = {m for m in mods if not m.startswith("gw_eccentricity")}
table, failed = {}, []
todo, seen = sorted(mods), set()
for m in todo:
    try:
        table[m] = sorted(dir(importlib.import_module(m)))
    except Exception as e:
        failed.append((m, repr(e)))
attrs = set()
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import matplotlib  # noqa: E402
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
fig, ax = plt.subplots()
objs = [np.zeros(2), np.float64(1), np.dtype(float), np.random.default_rng(),
        pd.DataFrame(), pd.Series(dtype=float), pd.DataFrame().iloc,
        pd.DataFrame().index, pd.DataFrame().groupby, fig, ax, ax.xaxis,
        ax.plot([0])[0], ax.legend(), ax.text(0, 0, ""), ax.spines, "", b"",
        1, 1., 1j, [], {}, (), set(), None, lambda: 0, Exception(), open(
            __file__), plt.rcParams, range(1), iter([]),
        __import__("importlib.util").util.find_spec("json"), property, type,
        (i for i in ()), ax.get_figure().canvas, fig.colorbar, KeyError("a"),
        memoryview(b""), slice(1), ax.xaxis.label, ast, np.finfo(float),
        np.errstate(), np.poly1d([1, 2])]
for o in objs:
    attrs |= set(dir(o))
for m in ("importlib.machinery", "h5py", "scipy.interpolate", "scipy.signal", "scipy.optimize",
          "argparse", "tqdm", "joblib", "bilby.core.result", "mpi4py.MPI",
          "scri", "sxs", "lal", "lalsimulation", "matplotlib.figure",
          "matplotlib.backends.backend_pdf", "traceback", "importlib.util",
          "concurrent.futures", "multiprocessing", "pathlib", "tempfile",
          "logging", "types", "time", "datetime", "sxs.waveforms"):
    try:
        mod = importlib.import_module(m)
    except Exception as e:
        failed.append((m, repr(e)))
        continue
    attrs |= set(dir(mod))
    for n in dir(mod):
        try:
            c = getattr(mod, n)
        except Exception:
            continue
        if inspect.isclass(c) or isinstance(c, types.ModuleType):
            attrs |= set(dir(c))
out = here / "gwsa" / "data"
out.mkdir(exist_ok=True)
(out / "libnames.json").write_text(json.dumps(
    {"modules": table, "attributes": sorted(attrs)}, indent=0))
print(len(table), "modules", len(attrs), "attributes", failed)
