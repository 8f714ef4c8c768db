"""Reference definitions for gw_eccentricity.spin_filter."""
import numpy as np
from scipy.interpolate import interp1d
from scipy.optimize import least_squares
from scipy.signal import find_peaks
from gw_eccentricity.utils import debug_message
from gw_eccentricity.spin_filter import (
    _find_intersection_points, _build_delta_T_interpolant, _pn_model,
    _pn_fit_for_secular_trend, check_filter_requirement,
    FilterSegmentResult, _get_fcut_fecc_fspin, _make_lowpass_mask,
    _condition_data_for_fft, FilterSpinInducedOscillations)


@of("spin_filter:_find_intersection_points", "E23")
def crossings(t, x, y):
    d = x - y
    i = np.where(np.diff(np.sign(d)))[0]
    if len(i) < 2:
        raise ValueError
    tc = t[i]
    return tc, 0.5 * (tc[:-1] + tc[1:]), np.diff(tc)


@of("spin_filter:_build_delta_T_interpolant", "E23")
def separation_of_crossings(t_mid, delta_t):
    return interp1d(t_mid, delta_t, kind="cubic", fill_value="extrapolate")


@of("spin_filter:_pn_model", "E23")
def pn_model(t, t_merger, A, power):
    return A * (t_merger - t)**power


@of("spin_filter:_pn_fit_for_secular_trend", "E23")
def pn_fit(t, x, data_type, t_merger):
    if data_type not in ["omega", "amp"]:
        raise ValueError
    power = -3.0 / 8.0 if data_type == "omega" else -1.0 / 4.0

    def residuals(p):
        tm, a, n = p
        return x - _pn_model(t, tm, a, n)
    r = least_squares(residuals, [t_merger, np.mean(x), power])
    tm, a, n = r.x
    return lambda t: _pn_model(t, tm, a, n)


@of("spin_filter:check_filter_requirement", "E23", raises="E23 E07",
    flags={"debug_plots": False})
def filter_required(t, data_copr_22, data_copr_2m2, t_merger, data_type,
                    threshold=0.2, debug_plots=False, style="Notebook"):
    if data_type not in ["omega", "amp"]:
        raise ValueError
    # the (2,-2) amplitude enters with +, the (2,-2) frequency with -
    s = 1 if data_type == "amp" else -1
    asym = 0.5 * (data_copr_22 - s * data_copr_2m2)
    trend = _pn_fit_for_secular_trend(t, data_copr_22, data_type, t_merger)
    res = data_copr_22 - trend(t)
    _, _, dT = _find_intersection_points(t, data_copr_22, s * data_copr_2m2)
    distance = int(2 * dT[-1] / (t[1] - t[0]))
    p = find_peaks(res, distance=distance)[0]
    q = find_peaks(asym, distance=distance)[0]
    return np.mean(asym[q]) / np.mean(res[p]) > threshold


@of("spin_filter:_make_lowpass_mask", "E23")
def lowpass(frequencies, f_cutoff, taper_width):
    lo = f_cutoff * (1 - taper_width)
    hi = f_cutoff * (1 + taper_width)
    mask = np.ones(len(frequencies))
    edge = np.logical_and(frequencies >= lo, frequencies <= hi)
    mask[edge] = 0.5 * (1 + np.cos(np.pi * (frequencies[edge] - lo)
                                   / (hi - lo)))
    mask[frequencies > hi] = 0.0
    return mask


@of("spin_filter:_condition_data_for_fft", "E23")
def condition(data, padding_length):
    pad = (padding_length, padding_length)
    return (np.pad(np.hamming(len(data)) * data, pad, mode="constant",
                   constant_values=0),
            np.pad(data, pad, mode="constant", constant_values=0))


@of("spin_filter:_get_fcut_fecc_fspin", "E23", flags={"verbose": False})
def frequencies_of_segment(t, data, f_spin_guess, fspin_lo_frac,
                           fspin_hi_frac, fecc_lo_frac, fecc_hi_frac,
                           verbose):
    f = np.fft.rfftfreq(len(data), d=t[1] - t[0])
    amp = np.abs(np.fft.rfft(data)) / len(data)
    m = (f >= fspin_lo_frac * f_spin_guess) & (
        f <= fspin_hi_frac * f_spin_guess)
    if np.any(m):
        f_spin = f[m][np.argmax(amp[m])]
    else:
        f_spin = f_spin_guess
    m = (f >= fecc_lo_frac * f_spin) & (f <= fecc_hi_frac * f_spin)
    if np.any(m):
        f_ecc = f[m][np.argmax(amp[m])]
    else:
        f_ecc = f_spin / 2.5
    m = (f >= f_ecc) & (f <= f_spin)
    if np.any(m):
        f_cut = f[m][np.argmin(amp[m])]
    else:
        f_cut = 0.5 * (f_spin + f_ecc)
    return f_cut, f_ecc, f_spin, f, amp


@of("spin_filter:FilterSpinInducedOscillations.__init__", "E23",
    raises="E23 E07", calls={"fn:debug_message": "E15"})
def filter_init(self, data_dict, data_type, segment_size, filter_threshold,
                data_type_for_fspin_estimate,
                data_type_for_filter_requirement_check, debug_plots,
                debug_level, data_tag="", t_merger=None):
    if data_type not in ["amp", "omega"]:
        raise ValueError
    for x in (data_type_for_fspin_estimate,
              data_type_for_filter_requirement_check):
        if x is not None and x not in ["amp", "omega"]:
            raise ValueError
    if data_tag not in ["", "_zeroecc"]:
        raise ValueError
    self.data_type = data_type
    self.data_tag = data_tag
    self.data_type_for_fspin_estimate = (
        data_type if data_type_for_fspin_estimate is None
        else data_type_for_fspin_estimate)
    self.data_type_for_filter_requirement_check = (
        data_type if data_type_for_filter_requirement_check is None
        else data_type_for_filter_requirement_check)
    self.t = data_dict["t"]
    modes = data_dict[self.data_type + "lm" + data_tag]
    self.data_copr_22 = modes[(2, 2)]
    self.data_copr_2m2 = modes[(2, -2)]
    self.segment_size = segment_size
    self.debug_plots = debug_plots
    self.filter_threshold = filter_threshold
    self.debug_level = debug_level
    amp = data_dict["amplm" + data_tag]
    self.t_merger = self.t[np.argmax(amp[(2, 2)] + amp[(2, -2)])] \
        if t_merger is None else t_merger
    s = 1 if data_type == "amp" else -1
    self.data = 0.5 * (self.data_copr_22 + s * self.data_copr_2m2)
    which = self.data_type_for_filter_requirement_check
    modes = data_dict[which + "lm" + data_tag]
    self.filtering_required = check_filter_requirement(
        self.t, modes[(2, 2)], modes[(2, -2)], self.t_merger, which,
        self.filter_threshold, debug_plots=self.debug_plots)
    if not self.filtering_required:
        return
    which = self.data_type_for_fspin_estimate
    modes = data_dict[which + "lm" + data_tag]
    self.t_cross, self.t_mid, self.delta_T = _find_intersection_points(
        self.t, modes[(2, 2)],
        modes[(2, -2)] * (1 if which == "amp" else -1))
    if self.t_cross.size > 100:
        debug_message("many", debug_level=self.debug_level)
    self.delta_T_interp = _build_delta_T_interpolant(self.t_mid,
                                                     self.delta_T)


@of("spin_filter:FilterSpinInducedOscillations._make_segment", "E23")
def segment(self, t_mid):
    half = 0.5 * self.segment_size * self.delta_T_interp(t_mid)
    i = np.searchsorted(self.t, max(self.t[0], t_mid - half), side="left")
    j = np.searchsorted(self.t, min(self.t[-1], t_mid + half), side="right")
    j = min(j, len(self.t))
    return self.t[i:j], self.data[i:j]


@of("spin_filter:FilterSpinInducedOscillations._f_spin_from_delta_T", "E23")
def spin_frequency(self, t):
    return 1.0 / self.delta_T_interp(t)


@of("spin_filter:FilterSpinInducedOscillations._get_secular_and_residual",
    "E23")
def residual_of_segment(self, t, data):
    f = _pn_fit_for_secular_trend(t, data, self.data_type, self.t_merger)
    return f(t), data - f(t)


@of("spin_filter:FilterSpinInducedOscillations._filter_segment", "E23")
def filter_segment(self, t_mid, padding_length, taper_width, f_spin_lo_frac,
                   f_spin_hi_frac, fecc_lo_frac, fecc_hi_frac):
    t, y = self._make_segment(t_mid)
    guess = self._f_spin_from_delta_T(t_mid)
    trend, res = self._get_secular_and_residual(t, y)
    windowed, plain = _condition_data_for_fft(res, padding_length)
    f_cut, f_ecc, f_spin, f, amp = _get_fcut_fecc_fspin(
        t, windowed, guess, f_spin_lo_frac, f_spin_hi_frac, fecc_lo_frac,
        fecc_hi_frac, self.debug_level)
    mask = _make_lowpass_mask(np.fft.rfftfreq(len(plain), d=t[1] - t[0]),
                              f_cut, taper_width)
    smooth = np.fft.irfft(np.fft.rfft(plain) * mask, n=len(plain))
    smooth = smooth[padding_length:-padding_length]
    return FilterSegmentResult(
        t=t, data=y, secular=trend, residual=res, filtered_residual=smooth,
        filtered_data=trend + smooth, frequency=f, spectrum=amp,
        f_spin=f_spin, f_ecc=f_ecc, f_spin_guess=guess, f_cutoff=f_cut)


@of("spin_filter:FilterSpinInducedOscillations._combine_segments", "E23")
def combine(self, results):
    total = np.zeros_like(self.t)
    weight = np.zeros_like(self.t)
    for r in results:
        i = np.searchsorted(self.t, r.t[0], side="left")
        j = min(i + len(r.filtered_data), len(self.t))
        w = np.hanning(j - i)
        total[i:j] += r.filtered_data[:j - i] * w
        weight[i:j] += w
    m = weight > 0
    out = np.where(m, total / np.where(m, weight, 1.0), 0.0)
    out[~m] = np.interp(self.t[~m], self.t[m], out[m])
    return out


@of("spin_filter:FilterSpinInducedOscillations.apply_filter", "E23",
    boundaries=("spin_filter:FilterSpinInducedOscillations"
                "._make_diagnostic_plots",))
def apply_filter(self, padding_length, taper_width, alpha, f_spin_lo_frac,
                 f_spin_hi_frac, fecc_lo_frac, fecc_hi_frac):
    t = self.t[0]
    out = []
    while t < self.t[-1]:
        out.append(self._filter_segment(
            t, padding_length, taper_width, f_spin_lo_frac, f_spin_hi_frac,
            fecc_lo_frac, fecc_hi_frac))
        t += alpha * self.delta_T_interp(t)
    self.filter_segment_results = out
    return self._combine_segments(out)


@of("spin_filter:get_default_kwargs_for_filtering", "E07 E23")
def filter_defaults():
    return {"filter_threshold": 0.2, "alpha": 2, "segment_size": 15,
            "data_type_for_filter_requirement_check": None,
            "data_type_for_fspin_estimate": None, "debug_level": 0,
            "debug_plots": False, "do_not_filter": False,
            "padding_length": 20000, "taper_width": 0.2,
            "f_spin_lo_frac": 0.75, "f_spin_hi_frac": 1.25,
            "fecc_lo_frac": 0.25, "fecc_hi_frac": 0.5}


@of("spin_filter:check_and_filter_spin_induced_oscillations", "E23",
    name="waveform", flags={"data_tag": ""},
    calls={"fn:debug_message": "E15"})
@of("spin_filter:check_and_filter_spin_induced_oscillations", "E23",
    name="counterpart", flags={"data_tag": "_zeroecc"},
    calls={"fn:debug_message": "E15"})
def filter_all(data_dict, data_tag, t_merger, filter_kwargs):
    out = {}
    for kind in ["amp", "omega"]:
        f = FilterSpinInducedOscillations(
            data_dict, kind, filter_kwargs["segment_size"],
            filter_kwargs["filter_threshold"],
            filter_kwargs["data_type_for_fspin_estimate"],
            filter_kwargs["data_type_for_filter_requirement_check"],
            filter_kwargs["debug_plots"], filter_kwargs["debug_level"],
            data_tag, t_merger)
        key = f"{kind}_gw{data_tag}"
        # the unfiltered data always stays available
        out[key + "_original"] = f.data
        if f.filtering_required and filter_kwargs["do_not_filter"]:
            debug_message("not filtered",
                          debug_level=filter_kwargs["debug_level"],
                          important=True)
        if f.filtering_required and not filter_kwargs["do_not_filter"]:
            y = f.apply_filter(
                filter_kwargs["padding_length"],
                filter_kwargs["taper_width"], filter_kwargs["alpha"],
                filter_kwargs["f_spin_lo_frac"],
                filter_kwargs["f_spin_hi_frac"],
                filter_kwargs["fecc_lo_frac"],
                filter_kwargs["fecc_hi_frac"])
            out[key] = y
            out[key + "_filtered"] = y
            out[key + "_filter_segment_results"] = f.filter_segment_results
        else:
            out[key] = f.data
            out[key + "_filtered"] = None
            out[key + "_filter_segment_results"] = None
    phase = data_dict["phaselm" + data_tag]
    phase = 0.5 * (phase[(2, 2)] - phase[(2, -2)])
    key = "phase_gw" + data_tag
    out[key + "_original"] = phase
    omega = out[f"omega_gw{data_tag}_filtered"]
    if omega is not None:
        # the time integral of the filtered frequency
        out[key] = np.cumsum(omega) * (f.t[1] - f.t[0])
        out[key + "_filtered"] = out[key]
    else:
        out[key] = phase
        out[key + "_filtered"] = None
    return out
