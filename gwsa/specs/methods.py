"""Reference definitions for the measurement methods and the entry point."""
import copy
import numpy as np
import scipy
from scipy.signal import find_peaks
from gw_eccentricity import get_available_methods
from gw_eccentricity.utils import (check_kwargs_and_set_defaults,
                                   get_interpolant)
from gw_eccentricity.eccDefinitionUsingAmplitude import \
    eccDefinitionUsingAmplitude
from gw_eccentricity.eccDefinitionUsingFrequency import \
    eccDefinitionUsingFrequency
from gw_eccentricity.eccDefinitionUsingAmplitudeFits import \
    eccDefinitionUsingAmplitudeFits
from gw_eccentricity.eccDefinitionUsingFrequencyFits import \
    eccDefinitionUsingFrequencyFits
from gw_eccentricity.eccDefinitionUsingFrequencyFits import \
    envelope_fitting_function
from gw_eccentricity.eccDefinitionUsingResidualAmplitude import \
    eccDefinitionUsingResidualAmplitude
from gw_eccentricity.eccDefinitionUsingResidualFrequency import \
    eccDefinitionUsingResidualFrequency


# ----------------------------------------------------------- entry point
@of("gw_eccentricity:get_available_methods", "E13 E07")
def available_methods(return_dict=False):
    methods = {"Amplitude": eccDefinitionUsingAmplitude,
               "Frequency": eccDefinitionUsingFrequency,
               "ResidualAmplitude": eccDefinitionUsingResidualAmplitude,
               "ResidualFrequency": eccDefinitionUsingResidualFrequency,
               "AmplitudeFits": eccDefinitionUsingAmplitudeFits,
               "FrequencyFits": eccDefinitionUsingFrequencyFits}
    return methods if return_dict else list(methods.keys())


@of("gw_eccentricity:measure_eccentricity", "E05 E07 E13", raises="E07",
    calls={"measure_ecc": "E05"})
def measure_eccentricity(tref_in=None, fref_in=None, method="Amplitude",
                         dataDict=None,
                         num_orbits_to_exclude_before_merger=2,
                         precessing=False, frame="inertial", debug_level=0,
                         extra_kwargs=None):
    available = get_available_methods(return_dict=True)
    if method not in available:
        raise Exception
    obj = available[method](dataDict, tref_in, fref_in,
                            num_orbits_to_exclude_before_merger, precessing,
                            frame, debug_level, extra_kwargs)
    out = obj.measure_ecc()
    out["gwecc_object"] = obj
    return out


# ---------------------------------------------------- data that are used
A = "eccDefinitionUsingAmplitude:eccDefinitionUsingAmplitude."


@of("eccDefinitionUsingAmplitude:eccDefinitionUsingAmplitude.__init__",
    "E13")
def amplitude_init(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.data_for_finding_extrema = self.get_data_for_finding_extrema()
    self.method = "Amplitude"


@of("eccDefinitionUsingAmplitude:eccDefinitionUsingAmplitude."
    "get_data_for_finding_extrema", "E13")
def amplitude_data(self):
    return self.amp_gw


@of("eccDefinitionUsingAmplitude:eccDefinitionUsingAmplitude.find_extrema",
    "E13 E07")
def find_extrema(self, extrema_type="pericenters"):
    # maxima at pericenters, minima at apocenters
    if extrema_type == "pericenters":
        return find_peaks(self.data_for_finding_extrema,
                          **self.extrema_finding_kwargs)[0]
    if extrema_type == "apocenters":
        return find_peaks(-self.data_for_finding_extrema,
                          **self.extrema_finding_kwargs)[0]
    raise Exception


@of("eccDefinitionUsingFrequency:eccDefinitionUsingFrequency.__init__",
    "E13")
def frequency_init(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.method = "Frequency"


@of("eccDefinitionUsingFrequency:eccDefinitionUsingFrequency."
    "get_data_for_finding_extrema", "E13")
def frequency_data(self):
    return self.omega_gw


@of("eccDefinitionUsingFrequency:eccDefinitionUsingFrequency.find_extrema",
    "E13")
def frequency_extrema(self, extrema_type="pericenters"):
    if extrema_type == "pericenters":
        return find_peaks(self.data_for_finding_extrema,
                          **self.extrema_finding_kwargs)[0]
    if extrema_type == "apocenters":
        return find_peaks(-self.data_for_finding_extrema,
                          **self.extrema_finding_kwargs)[0]
    raise Exception


@of("eccDefinitionUsingResidualAmplitude:"
    "eccDefinitionUsingResidualAmplitude.__init__", "E13")
def res_amplitude_init(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.method = "ResidualAmplitude"


@of("eccDefinitionUsingResidualAmplitude:"
    "eccDefinitionUsingResidualAmplitude.get_data_for_finding_extrema",
    "E13 E12", raises="E06 E12")
def res_amplitude_data(self):
    for k in ["t_zeroecc", "amplm_zeroecc", "omegalm_zeroecc"]:
        if k not in self.dataDict:
            raise Exception
    return self.res_amp_gw


@of("eccDefinitionUsingResidualAmplitude:"
    "eccDefinitionUsingResidualAmplitude.find_extrema", "E13")
def res_amplitude_extrema(self, extrema_type="pericenters"):
    if extrema_type == "pericenters":
        return find_peaks(self.data_for_finding_extrema,
                          **self.extrema_finding_kwargs)[0]
    if extrema_type == "apocenters":
        return find_peaks(-self.data_for_finding_extrema,
                          **self.extrema_finding_kwargs)[0]
    raise Exception


@of("eccDefinitionUsingResidualFrequency:"
    "eccDefinitionUsingResidualFrequency.__init__", "E13")
def res_frequency_init(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.method = "ResidualFrequency"


@of("eccDefinitionUsingResidualFrequency:"
    "eccDefinitionUsingResidualFrequency.get_data_for_finding_extrema",
    "E13 E12", raises="E06 E12")
def res_frequency_data(self):
    for k in ["t_zeroecc", "amplm_zeroecc", "omegalm_zeroecc"]:
        if k not in self.dataDict:
            raise Exception
    return self.res_omega_gw


@of("eccDefinitionUsingResidualFrequency:"
    "eccDefinitionUsingResidualFrequency.find_extrema", "E13")
def res_frequency_extrema(self, extrema_type="pericenters"):
    if extrema_type == "pericenters":
        return find_peaks(self.data_for_finding_extrema,
                          **self.extrema_finding_kwargs)[0]
    if extrema_type == "apocenters":
        return find_peaks(-self.data_for_finding_extrema,
                          **self.extrema_finding_kwargs)[0]
    raise Exception


# ------------------------------------------------------------------- fits
@of("eccDefinitionUsingFrequencyFits:envelope_fitting_function.__init__",
    "E13 E20")
def envelope_init(self, t0, verbose=False):
    self.t0 = t0
    self.verbose = verbose


@of("eccDefinitionUsingFrequencyFits:envelope_fitting_function.__call__",
    "E13 E20", state={"verbose": False})
def envelope(self, t, f0, f1, T):
    # f(t0) = f0, f'(t0) = f1, power law in the time to T
    n = -(T - self.t0) * f1 / f0
    if t.max() > T:
        raise Exception
    return f0 * (T - self.t0) ** (-n) * (T - t) ** n


@of("eccDefinitionUsingFrequencyFits:eccDefinitionUsingFrequencyFits."
    "__init__", "E13",
    attrs={"kwargs_for_fits_methods": "E13 E07",
           "diagnostic_data_dict": "E16"})
def frequency_fits_init(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.data_str = "omega_gw"
    self.data_for_finding_extrema = self.omega_gw.copy()
    self.method = "FrequencyFits"
    self.kwargs_for_fits_methods = check_kwargs_and_set_defaults(
        self.extra_kwargs["kwargs_for_fits_methods"],
        self.get_default_kwargs_for_fits_methods(), "", "")
    self.set_fit_variables()
    if self.return_diagnostic_data:
        self.diagnostic_data_dict = {
            "params": {"pericenters": [], "apocenters": []},
            "t_extrema": {"pericenters": [], "apocenters": []},
            "data_extrema": {"pericenters": [], "apocenters": []},
            "t_ref": {"pericenters": [], "apocenters": []},
            "f_fit": {"pericenters": [], "apocenters": []},
            "data": self.data_for_finding_extrema, "t": self.t}


@of("eccDefinitionUsingFrequencyFits:eccDefinitionUsingFrequencyFits."
    "get_default_kwargs_for_fits_methods", "E13 E07")
def frequency_fits_defaults(self):
    return {"nPN": -3 / 8, "fit_bounds_max_amp_factor": 10,
            "fit_bounds_max_nPN_factor": 10, "prominence_factor": 0.03,
            "distance_factor": 0.75, "num_orbits": 3,
            "num_orbits_for_global_fit": 10, "return_diagnostic_data": False}


@of("eccDefinitionUsingFrequencyFits:eccDefinitionUsingFrequencyFits."
    "set_fit_variables", "E13 E07")
def fit_variables(self):
    k = self.kwargs_for_fits_methods
    self.fit_bounds_max_amp_factor = k["fit_bounds_max_amp_factor"]
    self.fit_bounds_max_nPN_factor = k["fit_bounds_max_nPN_factor"]
    self.nPN = k["nPN"]
    self.prominence_factor = k["prominence_factor"]
    self.distance_factor = k["distance_factor"]
    self.num_orbits = k["num_orbits"]
    self.num_orbits_for_global_fit = k["num_orbits_for_global_fit"]
    self.return_diagnostic_data = k["return_diagnostic_data"]


@of("eccDefinitionUsingAmplitudeFits:eccDefinitionUsingAmplitudeFits."
    "__init__", "E13",
    attrs={"kwargs_for_fits_methods": "E13 E07"})
def amplitude_fits_init(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.data_str = "amp_gw"
    self.method = "AmplitudeFits"
    self.kwargs_for_fits_methods = check_kwargs_and_set_defaults(
        self.extra_kwargs["kwargs_for_fits_methods"],
        self.get_default_kwargs_for_fits_methods(), "", "")
    self.set_fit_variables()
    # in units of the amplitude at the merger
    self.data_for_finding_extrema = self.amp_gw / self.amp_gw_merger


@of("eccDefinitionUsingAmplitudeFits:eccDefinitionUsingAmplitudeFits."
    "get_default_kwargs_for_fits_methods", "E13 E07")
def amplitude_fits_defaults(self):
    return {"nPN": -1 / 4, "fit_bounds_max_amp_factor": 10,
            "fit_bounds_max_nPN_factor": 10, "prominence_factor": 0.025,
            "distance_factor": 0.5, "num_orbits": 3,
            "num_orbits_for_global_fit": 10, "return_diagnostic_data": False}


@of("eccDefinitionUsingFrequencyFits:eccDefinitionUsingFrequencyFits."
    "compute_distance_and_prominence", "E13")
def distance_prominence(self, idx_lo, idx_hi, f_fit, p):
    t = self.t[idx_lo:idx_hi]
    orbit = ((self.t[idx_hi - 1] - self.t[idx_lo])
             / (self.phase_gw[idx_hi - 1] - self.phase_gw[idx_lo])
             * 4 * np.pi)
    r = self.data_for_finding_extrema[idx_lo:idx_hi] - f_fit(t, *p)
    return (int(self.distance_factor * orbit / np.max(np.diff(t))),
            (max(r) - min(r)) * self.prominence_factor)


@of("eccDefinitionUsingFrequencyFits:eccDefinitionUsingFrequencyFits."
    "get_refined_extrema", "E13 E21", flags={"verbose": False})
def refined(self, t_extrema, data_extrema, phase_gw_extrema, verbose, f_fit,
            p):
    fit = np.polynomial.polynomial.Polynomial.fit
    for k in range(len(t_extrema)):
        i = np.argmin(np.abs(self.t - t_extrema[k]))
        near = np.abs(self.t - t_extrema[k]) < 0.05 / self.omega_gw[i]
        if sum(near) >= 7:
            t = self.t[near]
            parabola = fit(t, self.data_for_finding_extrema[near]
                           - f_fit(t, *p), 2)
            top = parabola.deriv().roots()[0]
            t_extrema[k] = top
            data_extrema[k] = parabola(top) + f_fit(top, *p)
            phase_gw_extrema[k] = fit(t, self.phase_gw[near], 3)(top)
    return t_extrema, data_extrema, phase_gw_extrema


@of("eccDefinitionUsingFrequencyFits:eccDefinitionUsingFrequencyFits."
    "find_extrema", "E13 E20",
    state={"verbose": False, "debug_plots": False},
    attrs={"t": "E08 E20 E13"})
def fits_extrema(self, extrema_type="pericenters"):
    if extrema_type == "pericenters":
        sign = 1
    elif extrema_type == "apocenters":
        sign = -1
    else:
        raise Exception
    t_given = self.t
    # merger at zero
    self.t = self.t - self.t_merger
    N = self.num_orbits
    end = np.argmax(self.phase_gw > self.phase_gw[0]
                    + self.num_orbits_for_global_fit * 4 * np.pi)
    if end == 0:
        end = -1
    centre = (self.t[0] + self.t[-1]) / 2
    f_fit = envelope_fitting_function(centre)
    f0 = (self.data_for_finding_extrema[0]
          + self.data_for_finding_extrema[end]) / 2
    bounds = [[0, 0, 0.8 * self.t[-1]],
              [self.fit_bounds_max_amp_factor * f0,
               self.fit_bounds_max_nPN_factor * f0 / -centre, -centre]]
    p_global, _ = scipy.optimize.curve_fit(
        f_fit, self.t[:end], self.data_for_finding_extrema[:end],
        p0=[f0, -self.nPN * f0 / -centre, 0], bounds=bounds)
    extrema = []
    t_ref = []
    data_ref = []
    phase_ref = []
    K = 1.1
    idx_ref = np.argmax(self.phase_gw > self.phase_gw[0]
                        + K * (N - 1) * 4 * np.pi)
    if idx_ref == 0:
        raise Exception
    p = p_global
    count = 0
    left = []
    left_t = []
    left_data = []
    left_phase = []
    while True:
        count = count + 1
        idx, p, K, idx_ref, fine = self.FindExtremaNearIdxRef(
            idx_ref, sign, N, N + 1, K, f_fit, p, bounds, 1e-8,
            increase_idx_ref_if_needed=True,
            refine_extrema=self.extra_kwargs["refine_extrema"],
            verbose=self.verbose, pp=False, plot_info="")
        stop = len(idx) < 2 * N + 1 or idx[N] < idx_ref
        if len(idx) >= 2 * N - 1:
            if count == 1:
                for k in range(0, N):
                    extrema.append(idx[k])
                    t_ref.append(fine[0][k])
                    data_ref.append(fine[1][k])
                    phase_ref.append(fine[2][k])
            if idx[N] > idx_ref:
                extrema.append(idx[N])
                t_ref.append(fine[0][N])
                data_ref.append(fine[1][N])
                phase_ref.append(fine[2][N])
                left = idx[N + 1:]
                left_t = fine[0][N + 1:]
                left_data = fine[1][N + 1:]
                left_phase = fine[2][N + 1:]
            if stop:
                for k in range(N + 1, len(idx)):
                    if idx[k] > idx_ref:
                        extrema.append(idx[k])
                        t_ref.append(fine[0][k])
                        data_ref.append(fine[1][k])
                        phase_ref.append(fine[2][k])
        else:
            if not stop:
                raise Exception
            extrema.extend(left)
            t_ref.extend(left_t)
            data_ref.extend(left_data)
            phase_ref.extend(left_phase)
        if stop:
            break
        idx_ref = int((idx[N] + idx[N + 1]) / 2)
        if count > 10000:
            raise Exception
    info = [np.array(t_ref), np.array(data_ref), np.array(phase_ref)]
    if sign > 0:
        self.periastron_info = info
    else:
        self.apastron_info = info
    self.t = t_given
    return np.array(extrema)


@of("eccDefinitionUsingFrequencyFits:eccDefinitionUsingFrequencyFits."
    "FindExtremaNearIdxRef", "E13",
    flags={"verbose": False, "pp": False},
    state={"return_diagnostic_data": False})
def near(self, idx_ref, sign, Nbefore, Nafter, K, f_fit, p_initial, bounds,
         TOL, increase_idx_ref_if_needed=True, refine_extrema=False,
         verbose=False, pp=None, plot_info=""):
    span = 4.2 * np.pi * K
    lo = np.argmax(self.phase_gw > self.phase_gw[idx_ref] - span * Nbefore)
    hi = np.argmax(self.phase_gw > self.phase_gw[idx_ref] + span * Nafter)
    if hi == 0:
        hi = len(self.phase_gw)
    p = p_initial
    it = 0
    old = np.zeros(Nbefore + Nafter)
    old_lo = -1
    old_hi = -1
    short = 0
    distance, prominence = self.compute_distance_and_prominence(
        lo, hi, f_fit, p)
    changed = -1
    while True:
        it = it + 1
        r = self.data_for_finding_extrema[lo:hi] - f_fit(self.t[lo:hi], *p)
        idx, _ = scipy.signal.find_peaks(sign * r, distance=distance,
                                         prominence=prominence)
        idx = idx + lo
        nleft = sum(idx < idx_ref)
        nright = sum(idx >= idx_ref)
        n = len(idx)
        t_ext = self.t[idx]
        data_ext = self.data_for_finding_extrema[idx]
        phase_ext = self.phase_gw[idx]
        if n >= 2:
            K = (phase_ext[-1] - phase_ext[0]) / (4 * np.pi * (n - 1))
        if refine_extrema:
            t_ext, data_ext, phase_ext = self.get_refined_extrema(
                t_ext, data_ext, phase_ext, verbose, f_fit, p)
        if nright < Nafter:
            short = short + 1
        if n == 0 or it > 20:
            return idx, p, K, idx_ref, [t_ext, data_ext, phase_ext]
        if nleft != Nbefore or nright != Nafter:
            if nleft > Nbefore:
                lo = int((idx[nleft - Nbefore - 1] + idx[nleft - Nbefore])
                         / 2)
            elif nleft < Nbefore:
                if lo == 0:
                    if increase_idx_ref_if_needed:
                        if nright >= 2:
                            j = np.argmax(idx >= idx_ref)
                            idx_ref = int((idx[j] + idx[j + 1]) / 2)
                            nright = nright - 1
                    else:
                        raise Exception
                else:
                    lo = np.argmax(
                        self.phase_gw
                        > self.phase_gw[lo] - K * 4 * np.pi * 0.6)
            if nright > Nafter:
                hi = int((idx[Nafter - nright] + idx[Nafter - nright - 1])
                         / 2)
            elif nright < Nafter:
                if hi < len(self.phase_gw):
                    hi = np.argmax(
                        self.phase_gw
                        > self.phase_gw[hi] + K * 4 * np.pi * 0.6)
                    if hi == 0:
                        hi = len(self.phase_gw)
            if (lo, hi) != (old_lo, old_hi):
                changed = it
                old_lo, old_hi = lo, hi
                continue
        if n != len(old):
            delta = 1e99
        else:
            delta = max(np.abs(data_ext - old))
        if it >= 16 and nleft == Nbefore and nright == Nafter and \
                changed == it - 1:
            return idx, p, K, idx_ref, [t_ext, data_ext, phase_ext]
        if short >= 5 or n < 5 or it > 20:
            return idx, p, K, idx_ref, [t_ext, data_ext, phase_ext]
        if delta < TOL:
            return idx, p, K, idx_ref, [t_ext, data_ext, phase_ext]
        p, _ = scipy.optimize.curve_fit(f_fit, t_ext, data_ext, p0=p,
                                        bounds=bounds, maxfev=10000)
        old = data_ext


# ------------------------------------------------------ comparing methods
@of("compare_methods:compute_errors_between_methods", "E30",
    calls={"numpy.testing.assert_allclose": "E30"})
def errors_between_methods(gwecc_obj1, gwecc_obj2, tmin=None, tmax=None):
    np.testing.assert_allclose(gwecc_obj1.tref_in, gwecc_obj2.tref_in)
    lo = max(gwecc_obj1.tmin, gwecc_obj2.tmin)
    hi = min(gwecc_obj1.tmax, gwecc_obj2.tmax)
    if tmin is not None:
        if tmin > hi:
            raise Exception
        lo = max(lo, tmin)
    if tmax is not None:
        if tmax < lo:
            raise Exception
        hi = min(hi, tmax)
    one = np.logical_and(gwecc_obj1.tref_out >= lo, gwecc_obj1.tref_out < hi)
    two = np.logical_and(gwecc_obj2.tref_out >= lo, gwecc_obj2.tref_out < hi)
    t1, t2 = gwecc_obj1.tref_out[one], gwecc_obj2.tref_out[two]
    np.testing.assert_allclose(t1, t2)
    e1, e2 = gwecc_obj1.eccentricity[one], gwecc_obj2.eccentricity[two]
    l1, l2 = gwecc_obj1.mean_anomaly[one], gwecc_obj2.mean_anomaly[two]
    # shortest way around the circle
    return (t1, np.abs(e1 - e2),
            np.abs((l1 - l2 + np.pi) % (2 * np.pi) - np.pi), e1, e2, l1, l2)


@of("truncate_waveform_by_flow:truncate_waveform_by_flow", "E31",
    raises="E31 E07", skip=["ret"], keys={"0": "E31"})
def truncate(dataDict=None, flow=None, m_max=None, method="Amplitude",
             extra_kwargs=None):
    if dataDict is None:
        raise ValueError
    available = get_available_methods(return_dict=True)
    if method not in available:
        raise Exception
    obj = available[method](dataDict, tref_in=dataDict["t"],
                            extra_kwargs=extra_kwargs)
    p = obj.find_extrema("pericenters")
    p = obj.drop_extrema_if_extrema_jumps(p, 1.5, "pericenters")
    p = obj.drop_extrema_if_too_close(p, extrema_type="pericenters")
    curve = get_interpolant(obj.t[p], obj.omega_gw[p])
    if m_max is None:
        m_max = max([m for l, m in obj.dataDict["amplm"].keys()])
    t = obj.t[np.logical_and(obj.t >= obj.t[p[0]], obj.t <= obj.t[p[-1]])]
    f = curve(t) / 2 / np.pi
    # first time at which the highest mode is at least at flow
    tlow = t[np.where(f * (m_max / 2) >= flow)[0][0]]
    out = copy.deepcopy(dataDict)
    for key in ["hlm", "amplm", "phaselm", "omegalm"]:
        for mode in out.get(key, {}):
            out[key][mode] = out[key][mode][out["t"] >= tlow]
    out["t"] = out["t"][out["t"] >= tlow]
    return out, obj
