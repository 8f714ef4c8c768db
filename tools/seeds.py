"""Planted changes: id, property, edits [(file, old, new)], demonstration."""
MPI = '''
import os, sys, tempfile, types
sys.path.insert(0, os.getcwd())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pandas as pd
import gw_eccentricity.postprocess.postprocess_cli as cli
from gw_eccentricity.postprocess.core import PostProcessResult


class Comm:
    """Deterministic stand-in: the workers answer at once, in an order given
    by `pick`."""

    def __init__(self, size, pick):
        self.pick, self.size = pick, size
        self.queue, self.stops, self.work = [], {}, []

    def send(self, msg, dest):
        if isinstance(msg, str):
            self.stops[dest] = self.stops.get(dest, 0) + 1
            return
        idx, params = msg
        self.work.append((dest, list(idx)))
        self.queue.append((dest, idx, [res(i, p) for i, p in
                                       zip(idx, params)]))

    def recv(self, source=None):
        if not self.queue:
            raise RuntimeError("deadlock")
        return self.queue.pop(self.pick(len(self.queue)))


def res(i, p):
    return PostProcessResult(sample_index=i, status="success",
                             egw=p["x"] / 10., lgw=p["x"])


def config(d, **k):
    c = dict(output_dir=d, output_format="csv", save_every=None,
             samples=None, fref=None, tref=-1000., method="Amplitude",
             batch_size=2, data_dict_generator=None,
             data_dict_generator_extra_kwargs={}, gw_eccentricity_kwargs={})
    c.update(k)
    return c
'''

SEEDS = [
 dict(id="S01", prop="E08", needs="nested option dictionaries",
  breaks="the nested option dictionaries of the caller are filled with "
         "defaults", edits=[("eccDefinition.py",
"            deepcopy(extra_kwargs), self.get_default_extra_kwargs(),",
"            dict(extra_kwargs or {}), self.get_default_extra_kwargs(),")],
  demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
kw = {"extrema_finding_kwargs": {"rel_height": 0.4}}
measure_eccentricity(dataDict=waveform(), tref_in=-5000.,
                     method="Amplitude", extra_kwargs=kw)
assert kw == {"extrema_finding_kwargs": {"rel_height": 0.4}}, kw
'''),
 dict(id="S02", prop="E14", needs="an extremum missing in the late half",
  breaks="the extremum after a phase jump is kept", edits=[
  ("eccDefinition.py",
"            extrema_location = extrema_location[extrema_location <=\n"
"                                                extrema_location[first_idx+1]]",
"            extrema_location = extrema_location[extrema_location <=\n"
"                                                extrema_location[first_idx+2]]")],
  demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform()
r = measure_eccentricity(dataDict=d, tref_in=-5000., method="Amplitude")
g = r["gwecc_object"]
loc = g.find_extrema("pericenters")
n = int(0.8 * len(loc))
cut = np.delete(loc, n)
good = g.drop_extrema_if_extrema_jumps(cut, 1.5, "pericenters")
assert list(good) == list(loc[:n]), (good, loc[:n])
'''),
 dict(id="S03", prop="E19", needs="several references, the last close to "
      "the end of the data", breaks="the segment is not lengthened on the "
      "left when the right side runs out", edits=[("eccDefinition.py",
'                "right", phase_right, -1, orbits_between, FOUR_PI_K)',
'                "right", phase_left, -1, orbits_between, FOUR_PI_K)')],
  demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform(ecc=0.05)
t = np.array([-1300., -1000.])
N = 24
r = measure_eccentricity(dataDict=d, tref_in=t, method="Amplitude",
                         extra_kwargs={"use_only_these_many_orbits": N})
g = r["gwecc_object"]
orbits = (g.phase_gw[-1] - g.phase_gw[0]) / 4 / np.pi
full = g.dataDict["t"]
ph = -np.unwrap(np.angle(d["hlm"][(2, 2)]))
end = ph[len(full) - 1]
left = ph[np.argmin(np.abs(d["t"] - t[0]))]
right = ph[np.argmin(np.abs(d["t"] - t[1]))]
K = 4 * np.pi * 1.1
missing = N / 2 - (end - right) / K - (right - left) / K
assert missing > 0.5
assert (left - g.phase_gw[0]) / K >= N / 2 + missing - 0.1, (
    (left - g.phase_gw[0]) / K, N / 2 + missing)
'''),
 dict(id="S04", prop="E17", needs="opt-in, too few extrema and a short "
      "analysis segment of a long waveform",
  breaks="zero eccentricity is returned although the data used spans less "
         "than five orbits", edits=[("eccDefinition.py",
"            approx_total_num_orbits = ((self.phase_gw[-1] - self.phase_gw[0])\n"
"                                      / (4 * np.pi))\n"
"            if approx_total_num_orbits > 5:",
"            phase = self.dataDict[\"phaselm\"][(2, 2)]\n"
"            approx_total_num_orbits = (phase[-1] - phase[0]) / (4 * np.pi)\n"
"            if approx_total_num_orbits > 5:")],
  demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform(ecc=0., zeroecc=False)
for n in (3, 20):
    try:
        r = measure_eccentricity(
            dataDict=d, tref_in=-5000., method="Amplitude",
            extra_kwargs=dict(return_zero_if_small_ecc_failure=True,
                              use_only_these_many_orbits=n))
        assert n == 20, "zero returned for %d orbits" % n
        assert r["eccentricity"] == 0
    except Exception as e:
        assert n == 3 and "Number of pericenters" in str(e), e
'''),
 dict(id="S05", prop="E03", needs="several reference frequencies in "
      "descending order", breaks="times are computed for the sorted "
      "frequencies but paired with the unsorted ones", edits=[
  ("eccDefinition.py", "            tref_in = interpolate(fref_out,",
   "            tref_in = interpolate(np.sort(fref_out),")],
  demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform()
f = np.array([0.007, 0.006])
r = measure_eccentricity(dataDict=d, fref_in=f, method="Amplitude")
for k in range(2):
    q = measure_eccentricity(dataDict=d, fref_in=f[k], method="Amplitude")
    assert np.isclose(q["eccentricity"], r["eccentricity"][k], rtol=1e-6)
'''),
 dict(id="S06", prop="E30", needs="references of which only some are common",
  breaks="values of the second measurement are selected with the mask of "
         "the first", edits=[("compare_methods.py",
"    mean_ano_ref_2_common = gwecc_obj2.mean_anomaly[common_idx2]",
"    mean_ano_ref_2_common = gwecc_obj2.mean_anomaly[\n"
"        :len(mean_ano_ref_1_common)]")],
  demo='''
from wf import *
from types import SimpleNamespace as O
from gw_eccentricity.compare_methods import \\
    compute_errors_between_methods as cmp_
t = np.arange(0., 10.)
def obj(lo, hi):
    s = t[(t >= lo) & (t <= hi)]
    return O(tref_in=t, tmin=lo, tmax=hi, tref_out=s, eccentricity=s / 100,
             mean_anomaly=s / 2)
r = cmp_(obj(3., 9.), obj(1., 9.))
assert np.allclose(r[2], 0.), r[2]
'''),
 dict(id="S07", prop="E25", needs="a generator that fails for one sample",
  breaks="a failing generator aborts the whole run", edits=[
  ("postprocess/core.py", '''    try:
        data_dict = get_data_dict(
            params,
            data_dict_generator,
            data_dict_generator_extra_kwargs)
        res = measure''', '''    data_dict = get_data_dict(
        params,
        data_dict_generator,
        data_dict_generator_extra_kwargs)
    try:
        res = measure''')],
  demo='''
from wf import *
from gw_eccentricity.postprocess.core import postprocess_sample
def gen(p, kw):
    if p["bad"]:
        raise RuntimeError("no waveform")
    return waveform()
for bad in (False, True):
    r = postprocess_sample(3, {"bad": bad}, -5000., None, gen)
    assert r.status == ("fail" if bad else "success")
    assert r.sample_index == 3
'''),
 dict(id="S08", prop="E26", needs="at least two workers with batches "
      "outstanding when the work runs out",
  breaks="a worker that answers before the last result is neither sent "
         "work nor stopped", edits=[("postprocess/postprocess_cli.py",
'''            next_batch_idx = end_idx
        else:
            comm.send(_STOP, dest=worker_rank)

    if checkpoint_interval''', '''            next_batch_idx = end_idx
        elif completed == n_to_process:
            comm.send(_STOP, dest=worker_rank)

    if checkpoint_interval''')], demo=MPI + '''
with tempfile.TemporaryDirectory() as d:
    for size in (2, 3, 4):
        for pick in (lambda n: 0, lambda n: n - 1):
            cli.size, cli.comm = size, Comm(size, pick)
            cli.master(pd.DataFrame({"x": range(7)}), config(d))
            assert cli.comm.stops == {i: 1 for i in range(1, size)}, \\
                cli.comm.stops
'''),
 dict(id="S09", prop="E27", needs="a checkpoint with a failed sample",
  breaks="samples recorded as failed are computed again", edits=[
  ("postprocess/postprocess_cli.py",
'''            checkpoint_df.loc[:, "sample_index"]
''', '''            checkpoint_df.loc[
                checkpoint_df["status"] == "success", "sample_index"]
''')], demo=MPI + '''
with tempfile.TemporaryDirectory() as d:
    pd.DataFrame({"sample_index": [1, 2], "status": ["fail", "success"],
                  "egw": [None, .5], "lgw": [None, 1.],
                  "error_message": ["x", None]}).to_parquet(
        d + "/checkpoint.parquet")
    done = []
    cli.size = 1
    cli.run_postprocess = lambda i, p, c: (done.append(i), res(i, p))[1]
    cli.master(pd.DataFrame({"x": range(4)}), config(d))
    assert done == [0, 3], done
'''),
 dict(id="S10", prop="E25", needs="a selection of samples that is not in "
      "ascending order", breaks="parameters are paired with the wrong "
      "sample", edits=[("postprocess/postprocess_cli.py",
"    row_indices = list(selected_posterior.index)",
"    row_indices = sorted(selected_posterior.index)")], demo=MPI + '''
with tempfile.TemporaryDirectory() as d:
    cli.size = 1
    seen = {}
    def run(i, p, c):
        seen[i] = p["x"]
        return res(i, p)
    cli.run_postprocess = run
    cli.master(pd.DataFrame({"x": [10, 11, 12, 13]}),
               config(d, samples=[3, 1]))
    assert seen == {3: 13, 1: 11}, seen
'''),
 dict(id="S11", prop="E29", needs="a range with a negative step",
  breaks="start:stop:-step selects nothing", edits=[
  ("postprocess/postprocess_cli.py",
"        step  = int(parts[2]) if len(parts) == 3 and parts[2] else 1",
"        step  = abs(int(parts[2])) if len(parts) == 3 and parts[2] else 1"
)], demo=MPI + '''
assert cli.parse_samples("9:3:-2") == [9, 7, 5]
assert cli.parse_samples("3:9:2") == [3, 5, 7]
'''),
 dict(id="S12", prop="E23", needs="a precessing waveform whose amplitude "
      "needs filtering and whose frequency does not",
  breaks="the phase is taken from the filtered frequency whenever the "
         "amplitude was filtered (or not at all)", edits=[
  ("spin_filter.py",
'    if filter_data_dict[f"omega_gw{data_tag}_filtered"] is not None:',
'    if filter_data_dict[f"amp_gw{data_tag}_filtered"] is not None and \\\n'
'            filter_data_dict[f"omega_gw{data_tag}_filtered"] is not None:'
)], demo='''
from wf import *
import gw_eccentricity.spin_filter as sf
class F:
    def __init__(self, data_type, **k):
        self.t = np.arange(10.)
        self.data = np.ones(10) * (1 if data_type == "amp" else 2)
        self.filtering_required = data_type == "omega"
        self.filter_segment_results = []
    def apply_filter(self, **k):
        return self.data * 3
sf.FilterSpinInducedOscillations = F
p = np.arange(10.)
kw = dict(sf.get_default_kwargs_for_filtering())
r = sf.check_and_filter_spin_induced_oscillations(
    {"phaselm": {(2, 2): p, (2, -2): -p}}, "", 5., kw)
assert np.allclose(np.diff(r["phase_gw"]), r["omega_gw"][1:])
'''),
 dict(id="S13", prop="E22", needs="so few extrema that raising the degrees "
      "stops because the fit would be underdetermined",
  breaks="the recorded degrees are those of a fit that was never made",
  edits=[("eccDefinition.py",
'''                 kwargs["degrees"] = last_monotonic_degrees
                 rat_fit = last_monotonic_fit
                 break

             rat_fit =''',
'''                 rat_fit = last_monotonic_fit
                 break

             rat_fit =''')], demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform(ecc=0.05, zeroecc=False)
g = measure_eccentricity(dataDict=d, tref_in=-5000., method="Amplitude",
                         debug_level=-1)["gwecc_object"]
x = np.linspace(0., 9., 10)
f = g.get_rational_fit_for_extrema(x, 1. / (20. - x), data_name="pericenters")
deg = g.rational_fit_degrees["pericenters"]
assert deg is None or tuple(deg) == tuple(f.degrees), (deg, f.degrees)
'''),
 dict(id="S14", prop="E16", needs="debug_level of at least 1",
  breaks="the data from which later values are computed is changed by a "
         "diagnostic", edits=[("eccDefinition.py",
'''        # get the time difference between consecutive locations in arr
''' if False else
'''            t_diff = np.diff(self.t[arr])
''', '''            self.pericenters_location = np.sort(arr1)
            t_diff = np.diff(self.t[arr])
''')], demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform(zeroecc=False)
out = []
for level in (-1, 1):
    for cut in (0, 1100):
        dd = {"t": d["t"][cut:], "hlm": {(2, 2): d["hlm"][(2, 2)][cut:]}}
        r = measure_eccentricity(dataDict=dd, tref_in=-5000.,
                                 method="Amplitude", debug_level=level)
        out.append((r["eccentricity"], r["mean_anomaly"]))
assert np.allclose(out[0], out[2]) and np.allclose(out[1], out[3]), out
'''),
 dict(id="S15", prop="E11", needs="modes other than (2,2) that peak at a "
      "different time", breaks="the merger time uses the (2,2) mode only",
  edits=[("eccDefinition.py",
'            amplitude_using_all_modes(newDataDict["amplm"], "amplm"))[0]\n'
'        merger_idx',
'            newDataDict["amplm"][(2, 2)])[0]\n        merger_idx')],
  demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform(zeroecc=False)
t = d["t"]
d["hlm"][(3, 3)] = (0.2 * np.exp(-(t - 8.)**2 / 100.)) + 0j
a = np.sqrt(sum(np.abs(h)**2 for h in d["hlm"].values()))
k = np.argmax(a)
c = np.polyfit(t[k-2:k+3] - t[k], a[k-2:k+3], 2)
g = measure_eccentricity(dataDict=d, tref_in=-5000.,
                         method="Amplitude")["gwecc_object"]
assert np.isclose(g.t_merger, t[k] - c[1] / 2 / c[0], atol=1e-6), g.t_merger
'''),
 dict(id="S16", prop="E10", needs="the derivative at the second sample",
  breaks="the stencil at the second sample is not exact for cubics",
  edits=[("utils.py",
"    res[1] = y[:5].dot(np.array([-3, -10, 18, -6, 1]) / 12.)",
"    res[1] = y[:4].dot(np.array([-2, -3, 6, -1]) / 6.)")],
  demo='''
from wf import *
from gw_eccentricity.utils import time_deriv_4thOrder
t = np.arange(0., 3., 0.25)
for n in range(1, 5):
    d = time_deriv_4thOrder(t**n, 0.25)
    assert np.allclose(d, n * t**(n - 1)), n
'''),
 dict(id="S17", prop="E06", needs="a time array whose steps vary smoothly "
      "but whose first and last steps agree",
  breaks="non-uniform times are accepted", edits=[("eccDefinition.py",
"        if not np.allclose(self.t_diff, self.t_diff[0]):\n"
"            raise Exception(\"Input time array must",
"        if not np.allclose(self.t_diff[[0, -1]], self.t_diff[0]):\n"
"            raise Exception(\"Input time array must")], demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform(zeroecc=False)
t = d["t"].copy()
t[4000:9000] += 3 * np.sin(np.linspace(0, np.pi, 5000))**2
try:
    measure_eccentricity(dataDict={"t": t, "hlm": d["hlm"]}, tref_in=-5000.,
                         method="Amplitude")
except Exception as e:
    assert "uniform" in str(e), e
else:
    raise SystemExit("non-uniform times accepted")
'''),
 dict(id="S18", prop="E04", needs="a reference exactly at an end of the "
      "allowed range", breaks="the last allowed time is dropped", edits=[
  ("eccDefinition.py",
"            np.logical_and(self.tref_in <= self.tmax,\n"
"                           self.tref_in >= self.tmin)]",
"            np.logical_and(self.tref_in < self.tmax,\n"
"                           self.tref_in >= self.tmin)]")], demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform()
g = measure_eccentricity(dataDict=d, tref_in=-5000.,
                         method="Amplitude")["gwecc_object"]
t = np.array([g.tmin, -5000., g.tmax])
r = measure_eccentricity(dataDict=d, tref_in=t, method="Amplitude")
assert list(r["tref_out"]) == list(t), r["tref_out"]
'''),
 dict(id="S19", prop="E18", needs="an extrapolating interpolation requested "
      "with ext other than 2", breaks="extrapolation happens silently",
  edits=[("utils.py",
'''        if not allowExtrapolation and kwargs["ext"] != 2:
''', '''        if not allowExtrapolation and kwargs["ext"] == 0:
''')], demo='''
from wf import *
from gw_eccentricity.utils import get_interpolant, get_default_spline_kwargs
x = np.arange(10.)
for ext in (0, 1, 2, 3):
    f = get_interpolant(x, x**2, spline_kwargs={"ext": ext})
    try:
        v = f(12.)
    except Exception:
        continue
    raise SystemExit("extrapolated to %s with ext=%d" % (v, ext))
'''),
 dict(id="S20", prop="E31", needs="a highest mode with m < l",
  breaks="the frequency of the highest mode uses l instead of m", edits=[
  ("truncate_waveform_by_flow.py",
"        m_max = max([m for (l, m) in modes])",
"        m_max = max(modes)[0]")], demo='''
from wf import *
from gw_eccentricity.truncate_waveform_by_flow import \\
    truncate_waveform_by_flow as trunc
d = waveform(zeroecc=False)
r, g = trunc(d, 0.008, method="Amplitude")
d["hlm"][(3, 2)] = 0.1 * d["hlm"][(2, 2)]
q, g = trunc(d, 0.008, method="Amplitude")
assert abs(q["t"][0] - r["t"][0]) < 2, (q["t"][0], r["t"][0])
'''),
 dict(id="S21", prop="E12", needs="a counterpart with modes other than "
      "(2,2) that peak at a different time",
  breaks="the counterpart is aligned with the peak of its (2,2) mode instead "
         "of its merger", edits=[("eccDefinition.py",
'            self.dataDict["amplm_zeroecc"], "amplm")  # total amplitude\n',
'            {(2, 2): self.dataDict["amplm_zeroecc"][(2, 2)]}, "amplm")\n')],
  demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
from gw_eccentricity.utils import peak_time_via_quadratic_fit as peak
d = waveform()
tz = d["t_zeroecc"]
h = d["hlm_zeroecc"][(2, 2)]
d["hlm_zeroecc"][(3, 3)] = h * 0.8 * np.exp(-((tz + 40.) / 30.)**2)
g = measure_eccentricity(dataDict=d, tref_in=-5000.,
                         method="ResidualAmplitude",
                         debug_level=-1)["gwecc_object"]
tot = np.sqrt(sum(abs(x)**2 for x in d["hlm_zeroecc"].values()))
tm = peak(tz, tot)[0]
assert np.allclose(g.t_zeroecc_shifted - (tz - tm), g.t_merger, atol=1e-6), \\
    (g.t_zeroecc_shifted[0] - tz[0], g.t_merger - tm)
'''),
 dict(id="S22", prop="E28", needs="a failed sample between successful ones",
  breaks="mean anomalies of failed samples enter the summary so that values "
         "of different samples are paired", edits=[("postprocess/core.py",
"            'lgw': [r.lgw for r in successful]",
"            'lgw': [r.lgw for r in self.results]")], demo='''
from wf import *
from gw_eccentricity.postprocess.core import PostProcessResult as R, \\
    PostProcessResults
s = PostProcessResults([R(0, "success", .1, 1.), R(1, "fail", None, None,
                       "x"), R(2, "success", .2, 2.)]).get_summary()
assert s["lgw"] == [1., 2.] and s["egw"] == [.1, .2], s
'''),
 dict(id="S23", prop="E07", needs="a residual method with search settings",
  breaks="search settings given by the user are replaced by defaults when "
         "extrema are looked for a second time", edits=[
  ("eccDefinition.py",
'            self.extra_kwargs[\'extrema_finding_kwargs\'],\n',
'            {k: v for k, v in\n'
'             self.extra_kwargs[\'extrema_finding_kwargs\'].items()\n'
'             if v is not None and v is not False and k != "wlen"},\n')],
  demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
kw = {"extrema_finding_kwargs": {"width": None, "wlen": 301}}
g = measure_eccentricity(dataDict=waveform(), tref_in=-5000.,
                         method="ResidualAmplitude",
                         extra_kwargs=kw)["gwecc_object"]
assert g.extrema_finding_kwargs["width"] is None
assert g.extrema_finding_kwargs["wlen"] == 301
'''),
 dict(id="S24", prop="E24", needs="a counterpart that is longer than the "
      "waveform", breaks="times and modes of the counterpart are cut at "
      "different samples when the cut is at the very start", edits=[
  ("load_data.py",
"        hlm_zeroecc[key] = hlm_zeroecc[key][start_zeroecc_idx:]\n",
"        hlm_zeroecc[key] = hlm_zeroecc[key][start_zeroecc_idx:-1]\n")],
  demo='''
from wf import *
import gw_eccentricity.load_data as ld
d = waveform()
ld.load_waveform = lambda **k: {"t": d["t_zeroecc"],
                                "hlm": dict(d["hlm_zeroecc"])}
class L:
    MSUN_SI = 2e30
    SimIMRSEOBNRv4ROMFrequencyOfTime = staticmethod(lambda *a: 10.)
ld.lalsim = L
r = ld.get_zeroecc_dataDict_for_nr(
    {"t": d["t"], "hlm": d["hlm"]},
    {"q": 1., "chi1": [0, 0, 0], "chi2": [0, 0, 0], "ecc": 0.1})
assert len(r["t_zeroecc"]) == len(r["hlm_zeroecc"][(2, 2)])
'''),
 dict(id="S25", prop="E08", needs="modes given in a dictionary that is used "
      "again after truncating", breaks="the modes of the caller are truncated",
  edits=[("truncate_waveform_by_flow.py",
"    truncatedDict = copy.deepcopy(dataDict)\n",
"    truncatedDict = copy.copy(dataDict)\n")], demo='''
from wf import *
import inspect
from gw_eccentricity import truncate_waveform_by_flow as m
fn = m if inspect.isfunction(m) else m.truncate_waveform_by_flow
d = waveform(ecc=0.1, zeroecc=False)
n = len(d["t"])
r = fn(dataDict=d, flow=0.0075, method="Amplitude")
assert len(r[0]["t"]) < n and len(r[0]["hlm"][(2, 2)]) == len(r[0]["t"])
assert len(d["t"]) == n and len(d["hlm"][(2, 2)]) == n, len(d["hlm"][(2, 2)])
'''),
 dict(id="S26", prop="E15", needs="the strictest level and a message that is "
      "not important", breaks="at level 2 unimportant diagnostics do not "
      "raise", edits=[("utils.py", "    if debug_level == 2:\n",
                       "    if debug_level == 2 and important:\n")], demo='''
from wf import *
from gw_eccentricity.utils import debug_message
for important in (True, False):
    try:
        debug_message("text", 2, important=important)
    except Exception:
        continue
    raise SystemExit(f"nothing raised for important={important}")
'''),
 dict(id="S27", prop="E20", needs="a counterpart that ends before merger and "
      "times whose origin is not at merger",
  breaks="whether too short counterparts are refused depends on the origin "
         "of time", edits=[("eccDefinition.py",
"        if self.t_zeroecc_shifted[-1] < self.t_merger:\n",
"        if self.t_zeroecc_shifted[-1] < min(self.t_merger, 0):\n")], demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
out = []
for shift in (0., 30000.):
    d = waveform(tshift=shift)
    n = np.searchsorted(d["t_zeroecc"], -33.)
    d["t_zeroecc"] = d["t_zeroecc"][:n]
    d["hlm_zeroecc"] = {k: v[:n] for k, v in d["hlm_zeroecc"].items()}
    try:
        measure_eccentricity(dataDict=d, tref_in=-5000. + shift,
                             method="ResidualAmplitude", debug_level=-1)
        out.append("accepted")
    except Exception as ex:
        out.append(str(ex)[:45])
assert out[0] == out[1], out
'''),
 dict(id="S28", prop="E21", needs="times in units in which the frequency "
      "grows slowly", breaks="whether an average frequency counts as "
      "increasing depends on the units of time", edits=[("eccDefinition.py",
"            np.diff(omega_gw_average) <= 0)[0]\n",
"            np.diff(omega_gw_average) <= 1e-10)[0]\n")], demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
out = []
for u in (1., 1e7):
    d = waveform(zeroecc=False)
    d["t"] = d["t"] * u
    g = measure_eccentricity(dataDict=d, tref_in=-5000. * u,
                             method="Amplitude",
                             debug_level=-1)["gwecc_object"]
    try:
        g.check_monotonicity_of_omega_gw_average(
            np.linspace(0.01, 0.02, 1000) / u)
        out.append("increasing")
    except Exception:
        out.append("refused")
assert out[0] == out[1], out
'''),
 dict(id="S29", prop="E32", needs="debug plots and an average frequency that "
      "is not increasing", breaks="an attribute that does not exist is read "
      "while drawing the debug plot", edits=[("eccDefinition.py",
"                axes[3].plot(self.t_pericenters,\n",
"                axes[3].plot(self.t_pericenters_location,\n")], demo='''
from wf import *
import tempfile
from gw_eccentricity import measure_eccentricity
d = waveform(zeroecc=False)
g = measure_eccentricity(dataDict=d, tref_in=-5000., method="Amplitude",
                         debug_level=-1)["gwecc_object"]
g.debug_plots = True
with tempfile.TemporaryDirectory() as tmp:
    os.chdir(tmp)
    g.debug_plots_dir = tmp
    try:
        g.check_monotonicity_of_omega_gw_average(np.linspace(2., 1., 50))
    except AttributeError:
        raise
    except Exception as ex:
        # refused, or no LaTeX to draw the labels with
        print(str(ex)[:60])
    finally:
        os.chdir("/")
'''),

 dict(id="S30", prop="E37", needs="two sets of extrema that agree in number, "
      "ends and sum, interpolated in one process",
  breaks="an interpolant of an earlier call is used again for other data",
  edits=[("utils.py",
"        interpolant = InterpolatedUnivariateSpline(oldX, oldY, **kwargs)\n",
"        key = (len(oldX), np.sum(oldX), np.sum(oldY), oldY[0], oldY[-1],\n"
"               kwargs[\"k\"], kwargs[\"ext\"])\n"
"        if key not in _spline_cache:\n"
"            _spline_cache[key] = InterpolatedUnivariateSpline(\n"
"                oldX, oldY, **kwargs)\n"
"        interpolant = _spline_cache[key]\n"),
  ("utils.py",
"def get_interpolant(",
"_spline_cache = {}\n\n\ndef get_interpolant(")], demo='''
from wf import *
from gw_eccentricity.utils import interpolate
x = np.arange(11.)
for y in ([0, 3, 1, 4, 1, 5, 9, 2, 6, 5, 3], [0, 9, 6, 5, 5, 4, 3, 2, 1, 1, 3]):
    d = np.max(np.abs(interpolate(x, x, np.array(y, dtype=float)) - y))
    assert d < 1e-6, (y, d)
'''),
 dict(id="S31", prop="E14", needs="extrema between one and two orbits apart",
  breaks="spurious extrema closer than two orbits' worth of phase are kept",
  edits=[("eccDefinition.py",
"                                  min_phase_gw_difference=4*np.pi,\n",
"                                  min_phase_gw_difference=2*np.pi,\n")],
  demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform(zeroecc=False)
g = measure_eccentricity(dataDict=d, tref_in=-5000., method="Amplitude",
                         debug_level=-1)["gwecc_object"]
ph = g.phase_gw - g.phase_gw[0]
at = [np.searchsorted(ph, x * np.pi) for x in (5, 10, 15, 20, 23)]
got = list(g.drop_extrema_if_too_close(np.array(at)))
assert got == at[:-1], (at, got)
'''),
 dict(id="S32", prop="E15", needs="more than half of the extrema dropped at "
      "debug level 1", breaks="a diagnostic is not issued although its "
      "condition holds", edits=[("eccDefinition.py",
"""        if self.debug_level < 1:
            return

        num_dropped_extrema""",
"""        if self.debug_level <= 1:
            return

        num_dropped_extrema""")], demo='''
from wf import *
import warnings
from gw_eccentricity import measure_eccentricity
d = waveform(zeroecc=False)
g = measure_eccentricity(dataDict=d, tref_in=-5000., method="Amplitude",
                         debug_level=-1)["gwecc_object"]
out = {}
for level in (-1, 0, 1):
    g.debug_level = level
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        g.check_if_dropped_too_many_extrema(
            np.arange(10), np.arange(2), "pericenters", 0.5)
    out[level] = len(w)
assert out == {-1: 0, 0: 0, 1: 1}, out
'''),
 dict(id="S33", prop="E37", needs="the amplitude read from the object after a "
      "measurement with AmplitudeFits", breaks="the amplitude a measurement "
      "object holds is rescaled with its search data", edits=[
("eccDefinitionUsingAmplitudeFits.py",
"        self.data_for_finding_extrema = self.amp_gw.copy()\n",
"        self.data_for_finding_extrema = self.amp_gw\n")], demo='''
from wf import *
from gw_eccentricity import measure_eccentricity
d = waveform(zeroecc=False)
a = {}
for m in ("Amplitude", "AmplitudeFits"):
    g = measure_eccentricity(dataDict=d, tref_in=-5000., method=m,
                             debug_level=-1)["gwecc_object"]
    a[m] = g.amp_gw / g.amp_gw_merger * 2.
r = np.max(np.abs(a["AmplitudeFits"] - a["Amplitude"]))
assert r == 0., r
'''),
]
