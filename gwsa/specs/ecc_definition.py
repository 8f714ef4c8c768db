"""Reference definitions for gw_eccentricity.eccDefinition.eccDefinition."""
import numpy as np
from copy import deepcopy
from gw_eccentricity.load_data import get_coprecessing_data_dict
from gw_eccentricity.utils import (
    debug_message, peak_time_via_quadratic_fit, check_kwargs_and_set_defaults,
    amplitude_using_all_modes, time_deriv_4thOrder, interpolate,
    get_interpolant, get_default_spline_kwargs, get_rational_fit,
    get_default_rational_fit_kwargs,
    QusicircularFitForMappingFrequencyToTime)
from gw_eccentricity.rational_fit import (
    is_underdetermined, get_reduced_degrees)
from gw_eccentricity.spin_filter import (
    check_and_filter_spin_induced_oscillations,
    get_default_kwargs_for_filtering)


@of("eccDefinition:eccDefinition.__init__", "E05 E07",
    raises="E06 E07 E03",
    attrs={"?": "E23 E16", "domain": "E03 E05", "ref_ndim": "E05", "tref_in": "E03 E05",
           "fref_in": "E03 E05", "dataDict": "E11 E06",
           "t_merger": "E11 E12", "amp_gw_merger": "E11", "t": "E09 E11",
           "amp_gw": "E09 E23", "phase_gw": "E09 E23", "omega_gw": "E09 E23",
           "extra_kwargs": "E07 E08 E23",
           "extrema_finding_kwargs": "E07 E13 E21",
           "omega_gw_extrema_interpolation_method": "E07 E18",
           "special_interp_kwargs_for_omega_gw_extrema": "E07 E18",
           "general_interp_kwargs": "E07 E18",
           "return_zero_if_small_ecc_failure": "E17 E07",
           "ecc_for_checks": "E01 E16", "ecc_interp": "E01 E16",
           "decc_dt_for_checks": "E01 E16",
           "omega_gw_average": "E03", "t_for_omega_gw_average": "E03",
           "available_averaging_methods": "E03 E07",
           "available_omega_gw_extrema_interpolation_methods": "E18 E07"},
    calls={"m:get_amp_phase_omega_gw_segments": "E19",
           "m:compute_res_amp_gw_and_res_omega_gw": "E12",
           "fn:debug_message": "E15 E07"}, unordered=["fn:debug_message"])
def init(self, dataDict, tref_in=None, fref_in=None,
         num_orbits_to_exclude_before_merger=2, precessing=False,
         frame="inertial", debug_level=0, extra_kwargs=None):
    # exactly one kind of reference point
    if tref_in is None and fref_in is None:
        raise KeyError
    if tref_in is not None and fref_in is not None:
        raise KeyError
    if tref_in is not None:
        self.domain = "time"
        self.ref_ndim = np.ndim(tref_in)
        self.tref_in = np.atleast_1d(tref_in)
    else:
        self.domain = "frequency"
        self.ref_ndim = np.ndim(fref_in)
        self.fref_in = np.atleast_1d(fref_in)
    self.precessing = precessing
    self.frame = frame
    self.debug_level = debug_level
    if frame not in ["inertial", "coprecessing"]:
        raise ValueError
    # what is measured is cut before the merger
    (self.dataDict, self.t_merger, self.amp_gw_merger,
     width) = self.process_data_dict(
        dataDict, num_orbits_to_exclude_before_merger, extra_kwargs)
    self.t = self.dataDict["t"]
    self.t_diff = np.diff(self.t)
    if not np.allclose(self.t_diff, self.t_diff[0]):
        raise Exception
    self.amp_gw, self.phase_gw, self.omega_gw = self.get_amp_phase_omega_gw(
        self.dataDict)
    if self.precessing:
        options = {} if extra_kwargs is None else deepcopy(extra_kwargs)
        # the messages of the filter obey the level of the measurement
        defaults = get_default_kwargs_for_filtering()
        defaults["debug_level"] = self.debug_level
        filter_kwargs = check_kwargs_and_set_defaults(
            options.get("filter_kwargs", {}), defaults, "filter_kwargs",
            "spin_filter.get_default_kwargs_for_filtering()")
        filtered = check_and_filter_spin_induced_oscillations(
            data_dict=deepcopy(self.dataDict), data_tag="",
            t_merger=self.t_merger, filter_kwargs=filter_kwargs)
        for key in filtered.keys():
            setattr(self, key, filtered[key])
        options["filter_kwargs"] = filter_kwargs
    else:
        options = deepcopy(extra_kwargs)
    self.extra_kwargs = check_kwargs_and_set_defaults(
        deepcopy(options), self.get_default_extra_kwargs(), "extra_kwargs",
        "eccDefinition.get_default_extra_kwargs()")
    self.debug_plots = self.extra_kwargs["debug_plots"]
    # only when asked for, and only when there is enough data
    n = self.extra_kwargs["use_only_these_many_orbits"]
    if n:
        if (self.phase_gw[-1] - self.phase_gw[0]) / (4 * np.pi) >= n:
            self.get_amp_phase_omega_gw_segments()
        else:
            debug_message("short", debug_level=self.debug_level,
                          important=True)
    self.extrema_finding_kwargs = check_kwargs_and_set_defaults(
        self.extra_kwargs["extrema_finding_kwargs"],
        self.get_default_extrema_finding_kwargs(width),
        "extrema_finding_kwargs",
        "eccDefinition.get_default_extrema_finding_kwargs()")
    self.omega_gw_extrema_interpolation_method = self.extra_kwargs[
        "omega_gw_extrema_interpolation_method"]
    self.available_omega_gw_extrema_interpolation_methods = \
        self.get_available_omega_gw_extrema_interpolation_methods()
    if self.omega_gw_extrema_interpolation_method not in \
            self.available_omega_gw_extrema_interpolation_methods:
        raise Exception
    self.special_interp_kwargs_for_omega_gw_extrema = \
        check_kwargs_and_set_defaults(
            self.extra_kwargs["special_interp_kwargs_for_omega_gw_extrema"],
            self.get_default_special_interp_kwargs_for_omega_gw_extrema(),
            "special_interp_kwargs_for_omega_gw_extrema",
            "eccDefinition.get_default_special_interp_kwargs_for_omega_gw"
            "_extrema()")
    self.set_other_variables_for_extrema_interpolation()
    self.general_interp_kwargs = check_kwargs_and_set_defaults(
        self.extra_kwargs["general_interp_kwargs"],
        get_default_spline_kwargs(), "general_interp_kwargs",
        "utils.get_default_spline_kwargs()")
    self.available_averaging_methods = \
        self.get_available_omega_gw_averaging_methods()
    self.return_zero_if_small_ecc_failure = self.extra_kwargs[
        "return_zero_if_small_ecc_failure"]
    for k in dataDict.keys():
        if k not in self.get_recognized_dataDict_keys():
            debug_message("unknown", debug_level=self.debug_level)
    self.ecc_for_checks = None
    self.ecc_interp = None
    self.decc_dt_for_checks = None
    self.t_for_omega_gw_average = None
    self.omega_gw_average = None
    # residuals whenever zero eccentricity data are there
    if "amplm_zeroecc" in self.dataDict and \
            "omegalm_zeroecc" in self.dataDict:
        self.compute_res_amp_gw_and_res_omega_gw()


@of("eccDefinition:eccDefinition.get_recognized_dataDict_keys", "E06 E07")
def recognized_keys(self):
    return ["t", "hlm", "amplm", "phaselm", "omegalm", "t_zeroecc",
            "hlm_zeroecc", "amplm_zeroecc", "phaselm_zeroecc",
            "omegalm_zeroecc"]


@of("eccDefinition:eccDefinition.get_amp_phase_omega_data", "E09 E06")
def amp_phase_omega_data(self, dataDict):
    out = {}
    out.update(self.get_amplm_from_dataDict(dataDict))
    out.update(self.get_phaselm_from_dataDict(dataDict))
    # omega given by the user wins over the derivative of the phase
    if "omegalm" in dataDict:
        out["omegalm"] = dict(dataDict["omegalm"])
    else:
        out["omegalm"] = self.get_omegalm_from_phaselm(
            dataDict["t"], out["phaselm"])
    if "omegalm_zeroecc" in dataDict:
        out["omegalm_zeroecc"] = dict(dataDict["omegalm_zeroecc"])
    elif "phaselm_zeroecc" in out and "t_zeroecc" in dataDict:
        out["omegalm_zeroecc"] = self.get_omegalm_from_phaselm(
            dataDict["t_zeroecc"], out["phaselm_zeroecc"])
    return out


@of("eccDefinition:eccDefinition.get_amplm_from_dataDict", "E09",
    raises="E06")
def amplm(self, dataDict):
    # amp = |h|
    amp = {}
    if "amplm" in dataDict:
        amp.update(dataDict["amplm"])
    elif "hlm" in dataDict:
        for k in dataDict["hlm"]:
            amp[k] = np.abs(dataDict["hlm"][k])
    else:
        raise Exception
    amp0 = {}
    if "amplm_zeroecc" in dataDict:
        amp0.update(dataDict["amplm_zeroecc"])
    elif "hlm_zeroecc" in dataDict:
        for k in dataDict["hlm_zeroecc"]:
            amp0[k] = np.abs(dataDict["hlm_zeroecc"][k])
    out = {"amplm": amp}
    if amp0:
        out["amplm_zeroecc"] = amp0
    return out


@of("eccDefinition:eccDefinition.get_phaselm_from_dataDict", "E09",
    raises="E06")
def phaselm(self, dataDict):
    # h = amp exp(-i phase)
    phase = {}
    if "phaselm" in dataDict:
        phase.update(dataDict["phaselm"])
    elif "hlm" in dataDict:
        for k in dataDict["hlm"]:
            phase[k] = -np.unwrap(np.angle(dataDict["hlm"][k]))
    else:
        raise Exception
    phase0 = {}
    if "phaselm_zeroecc" in dataDict:
        phase0.update(dataDict["phaselm_zeroecc"])
    elif "hlm_zeroecc" in dataDict:
        for k in dataDict["hlm_zeroecc"]:
            phase0[k] = -np.unwrap(np.angle(dataDict["hlm_zeroecc"][k]))
    out = {"phaselm": phase}
    if phase0:
        out["phaselm_zeroecc"] = phase0
    return out


@of("eccDefinition:eccDefinition.get_omegalm_from_phaselm", "E09 E10")
def omegalm(self, t, phaselm):
    out = phaselm.copy()
    for mode in phaselm:
        out[mode] = time_deriv_4thOrder(phaselm[mode], t[1] - t[0])
    return out


@of("eccDefinition:eccDefinition.process_data_dict", "E11",
    raises="E06 E11", ret="E11 E06 E09 E13", attrs={"frame": "E09"},
    calls={"fn:debug_message": "E15"},
    boundaries=["eccDefinition:eccDefinition."
                "transform_inertial_to_coprecessing"])
def process_data_dict(self, dataDict, num_orbits_to_exclude_before_merger,
                      extra_kwargs):
    for s in ["", "_zeroecc"]:
        if "hlm" + s in dataDict and ("amplm" + s in dataDict
                                      or "phaselm" + s in dataDict):
            raise Exception
    if "hlm" not in dataDict and ("amplm" not in dataDict
                                  or "phaselm" not in dataDict):
        raise Exception
    if self.precessing is True and self.frame == "inertial":
        debug_message("transforming", debug_level=self.debug_level,
                      important=False)
        dataDict = self.transform_inertial_to_coprecessing(dataDict)
        if "hlm_zeroecc" in dataDict or "amplm_zeroecc" in dataDict:
            dataDict = self.transform_inertial_to_coprecessing(
                dataDict, tag="_zeroecc")
        self.frame = "coprecessing"
    if "t" not in dataDict:
        raise Exception
    new = {"t": dataDict["t"]}
    if "t_zeroecc" in dataDict:
        new["t_zeroecc"] = dataDict["t_zeroecc"]
    new.update(self.get_amp_phase_omega_data(dataDict))
    # merger: peak of the amplitude of all modes
    t_merger = peak_time_via_quadratic_fit(
        new["t"], amplitude_using_all_modes(new["amplm"], "amplm"))[0]
    merger = np.argmin(np.abs(new["t"] - t_merger))
    amp, phase, omega = self.get_amp_phase_omega_gw(new)
    # phase increases, omega is positive
    if phase[merger] < phase[0]:
        raise Exception
    if omega[merger] < 0:
        raise Exception
    width = self.get_width_for_peak_finder_from_phase_gw(
        new["t"], phase, phase[merger])
    if num_orbits_to_exclude_before_merger is not None:
        if num_orbits_to_exclude_before_merger < 0:
            raise ValueError
        end = self.get_index_at_num_orbits_earlier_than_merger(
            phase, phase[merger], num_orbits_to_exclude_before_merger)
        # all the eccentric data end together
        for k in ["amplm", "phaselm", "omegalm"]:
            for mode in new[k]:
                new[k][mode] = new[k][mode][:end]
        new["t"] = new["t"][:end]
    return new, t_merger, amp[merger], width


@of("eccDefinition:eccDefinition.transform_inertial_to_coprecessing",
    "E09 E08")
def to_coprecessing(self, data_dict, tag=""):
    data_dict = dict(data_dict)
    if "hlm" + tag in data_dict:
        data_dict = get_coprecessing_data_dict(data_dict, tag=tag)
    if "hlm" + tag not in data_dict:
        hlm = self.get_hlm_from_amplm_phaselm(
            self.get_amplm_from_dataDict(data_dict),
            self.get_phaselm_from_dataDict(data_dict))
        data_dict["hlm" + tag] = hlm["hlm" + tag]
        data_dict = get_coprecessing_data_dict(data_dict, tag=tag)
        # these are in the inertial frame
        data_dict.pop("amplm" + tag, None)
        data_dict.pop("phaselm" + tag, None)
    if "omegalm" + tag in data_dict:
        data_dict.pop("omegalm" + tag, None)
    return data_dict


@of("eccDefinition:eccDefinition.get_hlm_from_amplm_phaselm", "E09")
def hlm(self, amplm_dict, phaselm_dict):
    tags = ["", "_zeroecc"] if "amplm_zeroecc" in amplm_dict else [""]
    out = {}
    for tag in tags:
        h = {}
        for k in amplm_dict["amplm" + tag]:
            h[k] = amplm_dict["amplm" + tag][k] * np.exp(
                -1j * phaselm_dict["phaselm" + tag][k])
        out["hlm" + tag] = h
    return out


@of("eccDefinition:eccDefinition.get_amp_phase_omega_gw", "E09",
    raises="E06")
def amp_phase_omega_gw(self, data_dict, tag=""):
    amp = data_dict["amplm" + tag]
    phase = data_dict["phaselm" + tag]
    omega = data_dict["omegalm" + tag]
    if not self.precessing:
        return amp[2, 2], phase[2, 2], omega[2, 2]
    # combination of (2, 2) and (2, -2)
    if (2, -2) not in amp or (2, -2) not in phase:
        raise Exception
    return ((amp[2, 2] + amp[2, -2]) / 2, (phase[2, 2] - phase[2, -2]) / 2,
            (omega[2, 2] - omega[2, -2]) / 2)


@of("eccDefinition:eccDefinition.get_width_for_peak_finder_from_phase_gw",
    "E13 E21")
def width(self, t, phase_gw, phase_gw_merger, num_orbits_before_merger=2):
    # a quarter of the duration of an orbit, in samples
    t2 = t[self.get_index_at_num_orbits_earlier_than_merger(
        phase_gw, phase_gw_merger, num_orbits_before_merger)]
    t1 = t[self.get_index_at_num_orbits_earlier_than_merger(
        phase_gw, phase_gw_merger, num_orbits_before_merger - 1)]
    return int((t1 - t2) / (t[1] - t[0]) / 4)


@of("eccDefinition:eccDefinition."
    "get_index_at_num_orbits_earlier_than_merger", "E11 E13",
    raises="E06 E11 E13")
def index_before_merger(self, phase_gw, phase_gw_merger, num_orbits):
    target = phase_gw_merger - num_orbits * 4 * np.pi
    if target < phase_gw[0]:
        raise Exception
    return np.argmin(np.abs(phase_gw - target))


@of("eccDefinition:eccDefinition.get_default_extrema_finding_kwargs",
    "E07 E13")
def default_extrema_kwargs(self, width):
    return {"height": None, "threshold": None, "distance": None,
            "prominence": None, "width": width, "wlen": None,
            "rel_height": 0.5, "plateau_size": None}


@of("eccDefinition:eccDefinition."
    "get_default_special_interp_kwargs_for_omega_gw_extrema", "E07 E18")
def default_special_kwargs(self):
    if self.omega_gw_extrema_interpolation_method == "spline":
        return get_default_spline_kwargs()
    if self.omega_gw_extrema_interpolation_method == "rational_fit":
        return get_default_rational_fit_kwargs()
    raise Exception


@of("eccDefinition:eccDefinition."
    "set_other_variables_for_extrema_interpolation", "E18 E16")
def other_variables(self):
    if self.omega_gw_extrema_interpolation_method == "rational_fit":
        self.special_interp_kwargs_for_omega_gw_extrema["verbose"] = \
            self.debug_level >= 1
        self.rational_fit_nonmonotonicity_history = {
            "pericenters": {}, "apocenters": {}}
        self.rational_fit_degrees = {"pericenters": None,
                                     "apocenters": None}


@of("eccDefinition:eccDefinition.get_default_extra_kwargs", "E07 E17")
def default_extra_kwargs(self):
    return {"general_interp_kwargs": {},
            "special_interp_kwargs_for_omega_gw_extrema": {},
            "extrema_finding_kwargs": {},
            "debug_plots": False,
            "omega_gw_averaging_method": "orbit_averaged_omega_gw",
            "treat_mid_points_between_pericenters_as_apocenters": False,
            "refine_extrema": False,
            "kwargs_for_fits_methods": {},
            "return_zero_if_small_ecc_failure": False,
            "omega_gw_extrema_interpolation_method": "rational_fit",
            "use_only_these_many_orbits": None,
            "filter_kwargs": {}}


@of("eccDefinition:eccDefinition.drop_extra_extrema_at_ends", "E14",
    calls={"fn:debug_message": "E15"}, unordered=["fn:debug_message"])
def drop_at_ends(self, pericenters, apocenters):
    # at most one of a kind beyond the outermost of the other kind
    p = pericenters[pericenters > apocenters[-1]]
    if len(p) > 1:
        debug_message("dropped", self.debug_level, important=False)
        pericenters = pericenters[pericenters <= p[0]]
    a = apocenters[apocenters > pericenters[-1]]
    if len(a) > 1:
        debug_message("dropped", self.debug_level, important=False)
        apocenters = apocenters[apocenters <= a[0]]
    p = pericenters[pericenters < apocenters[0]]
    if len(p) > 1:
        debug_message("dropped", self.debug_level, important=False)
        pericenters = pericenters[pericenters >= p[-1]]
    a = apocenters[apocenters < pericenters[0]]
    if len(a) > 1:
        debug_message("dropped", self.debug_level, important=False)
        apocenters = apocenters[apocenters >= a[-1]]
    return pericenters, apocenters


@of("eccDefinition:eccDefinition.drop_extrema_if_extrema_jumps", "E14",
    calls={"fn:debug_message": "E15"}, unordered=["fn:debug_message"])
def drop_jumps(self, extrema_location, max_r_delta_phase_gw_extrema=1.5,
               extrema_type="extrema"):
    dphase = np.diff(self.phase_gw[extrema_location])
    ratio = dphase[1:] / dphase[:-1]
    mid = int(len(ratio) / 2)
    large = np.where(ratio > max_r_delta_phase_gw_extrema)[0]
    out = extrema_location
    if len(large) > 0 and large[0] > mid:
        # keep what is before the gap
        debug_message("dropped", self.debug_level, important=False)
        out = out[out <= out[large[0] + 1]]
    small = np.where(ratio < 1 / max_r_delta_phase_gw_extrema)[0]
    if len(small) > 0 and small[-1] < mid:
        # keep what is after the gap
        debug_message("dropped", self.debug_level, important=False)
        out = out[out >= out[small[-1] + 1]]
    return out


@of("eccDefinition:eccDefinition.drop_extrema_if_too_close", "E14",
    calls={"fn:debug_message": "E15"}, unordered=["fn:debug_message"])
def drop_close(self, extrema_location, min_phase_gw_difference=4 * np.pi,
               extrema_type="extrema"):
    dphase = np.diff(self.phase_gw[extrema_location])
    close = np.where(dphase < min_phase_gw_difference)[0]
    mid = int(len(dphase) / 2)
    out = extrema_location
    if len(close) > 0:
        if close[0] > mid:
            debug_message("dropped", self.debug_level, important=False)
            out = out[out <= out[close[0]]]
        if close[-1] < mid:
            debug_message("dropped", self.debug_level, important=False)
            out = out[out >= out[close[-1] + 1]]
    return out


@of("eccDefinition:eccDefinition.get_good_extrema", "E14")
def good_extrema(self, pericenters, apocenters,
                 max_r_delta_phase_gw_extrema=1.5):
    p = self.drop_extrema_if_extrema_jumps(
        pericenters, max_r_delta_phase_gw_extrema, "pericenters")
    a = self.drop_extrema_if_extrema_jumps(
        apocenters, max_r_delta_phase_gw_extrema, "apocenters")
    p = self.drop_extrema_if_too_close(p, extrema_type="pericenters")
    a = self.drop_extrema_if_too_close(a, extrema_type="apocenters")
    return self.drop_extra_extrema_at_ends(p, a)


@of("eccDefinition:eccDefinition.get_rational_fit_for_extrema", "E18 E22",
    raises="E07 E18")
def rational_fit_for_extrema(self, x, y, data_name=None):
    if data_name is None:
        raise ValueError
    kwargs = deepcopy(self.special_interp_kwargs_for_omega_gw_extrema)
    if kwargs["degrees"] is None:
        kwargs["degrees"] = self.get_approximate_degree_for_rational_fit()
    if is_underdetermined(kwargs["degrees"], len(x)):
        kwargs["degrees"] = get_reduced_degrees(kwargs["degrees"], len(x))
    x_test = np.arange(x[0], x[-1], self.t[1] - self.t[0])
    fit = get_rational_fit(x, y, rational_fit_kwargs=kwargs,
                           check_kwargs=False)
    m, n = kwargs["degrees"]
    bad = self.check_if_first_derivative_is_not_strictly_monotonic(
        x_test, fit(x_test), 1.0)
    self.rational_fit_nonmonotonicity_history[data_name][m, n] = bad
    if bad:
        while bad:
            m, n = kwargs["degrees"]
            if m <= 1 and n <= 1:
                fit = get_interpolant(x, y)
                kwargs["degrees"] = None
                break
            kwargs["degrees"] = (max(m - 1, 1), max(n - 1, 1))
            m, n = kwargs["degrees"]
            fit = get_rational_fit(x, y, rational_fit_kwargs=kwargs,
                                   check_kwargs=False)
            bad = self.check_if_first_derivative_is_not_strictly_monotonic(
                x_test, fit(x_test), 1.0)
            self.rational_fit_nonmonotonicity_history[data_name][m, n] = bad
    else:
        good = fit
        good_degrees = kwargs["degrees"]
        while not bad:
            m, n = kwargs["degrees"]
            kwargs["degrees"] = (m + 1, n + 1)
            if is_underdetermined(kwargs["degrees"], len(x)):
                kwargs["degrees"] = good_degrees
                fit = good
                break
            fit = get_rational_fit(x, y, rational_fit_kwargs=kwargs,
                                   check_kwargs=False)
            bad = self.check_if_first_derivative_is_not_strictly_monotonic(
                x_test, fit(x_test), 1.0)
            m, n = kwargs["degrees"]
            self.rational_fit_nonmonotonicity_history[data_name][m, n] = bad
            if bad:
                kwargs["degrees"] = good_degrees
                fit = good
                break
            good = fit
            good_degrees = kwargs["degrees"]
    self.special_interp_kwargs_for_omega_gw_extrema = kwargs
    self.rational_fit_degrees[data_name] = kwargs["degrees"]
    return fit


@of("eccDefinition:eccDefinition.get_approximate_degree_for_rational_fit",
    "E18 E22")
def approximate_degree(self):
    n = max(len(self.pericenters_location), len(self.apocenters_location))
    if n <= 20:
        return 3, 3
    if n <= 40:
        return 4, 4
    if n <= 60:
        return 5, 5
    return 6, 6


@of("eccDefinition:eccDefinition."
    "check_if_first_derivative_is_not_strictly_monotonic", "E18 E22")
def not_monotonic(self, x, y, tol=1e-5):
    slope = np.gradient(y, x[1] - x[0])
    ratio = slope[1:] / slope[:-1]
    same = np.abs(1 - ratio) < tol
    if np.any(same):
        ratio[same] = 1
    return any(ratio < 1)


@of("eccDefinition:eccDefinition."
    "get_available_omega_gw_extrema_interpolation_methods", "E18 E07")
def interpolation_methods(self):
    return {"spline": get_interpolant,
            "rational_fit": self.get_rational_fit_for_extrema}


@of("eccDefinition:eccDefinition.get_omega_gw_extrema_interpolant",
    "E18 E01", raises="E18 E06", calls={"fn:debug_message": "E15"},
    boundaries=["eccDefinition:eccDefinition."
                "check_if_first_derivative_is_not_strictly_monotonic"])
def extrema_interpolant(self, extrema_type="pericenters"):
    if extrema_type == "pericenters":
        at = self.pericenters_location
    elif extrema_type == "apocenters":
        at = self.apocenters_location
    else:
        raise Exception
    if len(at) < 2:
        raise Exception
    name = self.omega_gw_extrema_interpolation_method
    method = self.available_omega_gw_extrema_interpolation_methods[name]
    if name == "rational_fit":
        curve = method(self.t[at], self.omega_gw[at], extrema_type)
    if name == "spline":
        curve = method(
            self.t[at], self.omega_gw[at],
            spline_kwargs=self.special_interp_kwargs_for_omega_gw_extrema,
            check_kwargs=False)
    if self.check_if_first_derivative_is_not_strictly_monotonic(
            self.t_for_checks, curve(self.t_for_checks)):
        debug_message("not monotonic", debug_level=self.debug_level,
                      important=True)
    return curve


@of("eccDefinition:eccDefinition.check_num_extrema", "E17",
    raises="E17 E06", calls={"fn:debug_message": "E15 E17"})
def num_extrema(self, extrema, extrema_type="extrema"):
    # too few extrema: an error, unless zero was asked for and the data are
    # long enough
    if len(extrema) < 2:
        long = (self.phase_gw[-1] - self.phase_gw[0]) / (4 * np.pi) > 5
        if not (long and self.return_zero_if_small_ecc_failure):
            raise Exception
        debug_message("too few", important=True,
                      debug_level=self.debug_level)
        return long


@of("eccDefinition:eccDefinition."
    "get_approximate_tref_for_fref_using_secular_trend", "E19 E20")
def approximate_tref(self, fref):
    omega_ref = 2 * np.pi * fref
    above = np.where(self.omega_gw >= omega_ref)[0]
    below = np.where(self.omega_gw <= omega_ref)[0]
    if len(below) == 0:
        left = above[0]
        right = left
    elif len(above) == 0:
        right = below[-1]
        left = right
    else:
        left = above[0]
        right = below[-1]
    # at least about five orbits
    if (self.phase_gw[right] - self.phase_gw[left]) / (4 * np.pi) < 5:
        i = np.where(self.phase_gw
                     >= self.phase_gw[left] - 2.5 * 4 * np.pi)[0]
        j = np.where(self.phase_gw
                     >= self.phase_gw[right] + 2.5 * 4 * np.pi)[0]
        left = i[0] if len(i) > 1 else 0
        right = j[0] if len(j) > 1 else -1
    # the fit wants the merger at zero
    time = self.t[left:right] - self.t_merger
    omega = self.omega_gw[left:right]
    if len(time) >= 1000:
        step = len(time) // 1000
        time = time[::step]
        omega = omega[::step]
    trend = QusicircularFitForMappingFrequencyToTime(time, omega)
    res = trend.least_square_fit()
    k = np.argmin(np.abs(trend.model(time, *res.x) - omega_ref))
    return time[k] + self.t_merger


@of("eccDefinition:eccDefinition.get_amp_phase_omega_gw_segments", "E19",
    state={"debug_plots": False})
def segments(self):
    t_left, t_right = self._get_reference_bounds()
    phase_left, phase_right = self._get_phase_bounds(t_left, t_right)
    self._get_segment_indices(phase_left, phase_right)
    # the four arrays are cut alike
    start, end = self.segment_start_index, self.segment_end_index
    self.t = self.t[start:end]
    self.amp_gw = self.amp_gw[start:end]
    self.phase_gw = self.phase_gw[start:end]
    self.omega_gw = self.omega_gw[start:end]


@of("eccDefinition:eccDefinition._get_reference_bounds", "E19 E20")
def reference_bounds(self):
    if self.domain == "time":
        return np.min(self.tref_in), np.max(self.tref_in)
    left = self.get_approximate_tref_for_fref_using_secular_trend(
        np.min(self.fref_in))
    right = left
    if len(self.fref_in) > 1:
        right = self.get_approximate_tref_for_fref_using_secular_trend(
            np.max(self.fref_in))
    return left, right


@of("eccDefinition:eccDefinition._get_phase_bounds", "E19 E20")
def phase_bounds(self, t_left, t_right):
    return (self.phase_gw[np.argmin(np.abs(self.t - t_left))],
            self.phase_gw[np.argmin(np.abs(self.t - t_right))])


@of("eccDefinition:eccDefinition._get_segment_indices", "E19")
def segment_indices(self, phase_left, phase_right):
    orbit = 4 * 1.1 * np.pi
    between = (phase_right - phase_left) / orbit
    n = self.extra_kwargs["use_only_these_many_orbits"]
    side = np.ceil(n / 2) * orbit
    self.segment_start_index = max(
        np.searchsorted(self.phase_gw, phase_left - side) - 1, 0)
    # what is missing on one side is added on the other
    if self.segment_start_index == 0:
        more = max(n / 2 - (phase_left - self.phase_gw[0]) / orbit - between,
                   0)
    else:
        more = 0
    i = np.where(self.phase_gw >= phase_right + side + more * orbit)[0]
    self.segment_end_index = i[0] if len(i) > 0 else -1
    if self.segment_end_index == -1:
        more = max(n / 2 - (self.phase_gw[-1] - phase_right) / orbit
                   - between, 0)
        i = np.where(self.phase_gw >= phase_left - side - more * orbit)[0]
        self.segment_start_index = i[0] if len(i) > 0 else 0


@of("eccDefinition:eccDefinition.measure_ecc", "E01 E04 E05",
    raises="E04 E06 E17",
    attrs={"setting_ecc_to_zero": "E17",
           "pericenters_location": "E14 E23 E13 E01",
           "apocenters_location": "E14 E23 E13 E01",
           "t_pericenters": "E04 E02", "t_apocenters": "E04",
           "tmin": "E04 E01", "tmax": "E04 E01", "t_for_checks": "E04",
           "omega_gw_pericenters_interp": "E01 E18",
           "omega_gw_apocenters_interp": "E01 E18",
           "tref_in": "E03 E04", "fref_out": "E03 E05",
           "tref_out": "E04 E05 E03", "eccentricity": "E01",
           "mean_anomaly": "E02",
           "orb_phase_diff_at_pericenters": "E16",
           "orb_phase_diff_ratio_at_pericenters": "E16",
           "orb_phase_diff_at_apocenters": "E16",
           "orb_phase_diff_ratio_at_apocenters": "E16"},
    ret="E05 E17 E01 E02",
    state={"debug_plots": False},
    calls={"fn:debug_message": "E15",
           "m:check_if_dropped_too_many_extrema": "E15",
           "m:check_pericenters_and_apocenters_appear_alternately": "E15",
           "m:check_extrema_separation": "E15",
           "m:check_monotonicity_and_convexity": "E15"},
    unordered=["m:check_if_dropped_too_many_extrema",
               "m:check_extrema_separation"],
    boundaries=["eccDefinition:eccDefinition."
                "check_if_dropped_too_many_extrema",
                "eccDefinition:eccDefinition."
                "check_pericenters_and_apocenters_appear_alternately",
                "eccDefinition:eccDefinition.check_extrema_separation",
                "eccDefinition:eccDefinition.check_monotonicity_and_"
                "convexity",
                "eccDefinition:eccDefinition.check_input_limits"])
def measure(self):
    pericenters = self.find_extrema("pericenters")
    few_p = self.check_num_extrema(pericenters, "pericenters")
    if self.extra_kwargs[
            "treat_mid_points_between_pericenters_as_apocenters"]:
        apocenters = self.get_apocenters_from_pericenters(pericenters)
    else:
        apocenters = self.find_extrema("apocenters")
    few_a = self.check_num_extrema(apocenters, "apocenters")
    # zero only on request and only if extrema are missing
    if (few_p or few_a) and self.return_zero_if_small_ecc_failure:
        self.setting_ecc_to_zero = True
        return self.set_eccentricity_and_mean_anomaly_to_zero()
    self.setting_ecc_to_zero = False
    self.pericenters_location, self.apocenters_location = \
        self.get_good_extrema(pericenters, apocenters)
    self.check_if_dropped_too_many_extrema(
        pericenters, self.pericenters_location, "pericenters", 0.5)
    self.check_if_dropped_too_many_extrema(
        apocenters, self.apocenters_location, "apocenters", 0.5)
    if self.precessing and self.omega_gw_filtered is not None:
        # the first ones are affected by the filter
        self.pericenters_location = self.pericenters_location[1:]
        self.apocenters_location = self.apocenters_location[1:]
    self.check_pericenters_and_apocenters_appear_alternately()
    self.orb_phase_diff_at_pericenters, \
        self.orb_phase_diff_ratio_at_pericenters = \
        self.check_extrema_separation(self.pericenters_location,
                                      "pericenters")
    self.orb_phase_diff_at_apocenters, \
        self.orb_phase_diff_ratio_at_apocenters = \
        self.check_extrema_separation(self.apocenters_location, "apocenters")
    self.t_pericenters = self.t[self.pericenters_location]
    self.t_apocenters = self.t[self.apocenters_location]
    # where both curves are interpolated
    self.tmax = min(self.t_pericenters[-1], self.t_apocenters[-1])
    self.tmin = max(self.t_pericenters[0], self.t_apocenters[0])
    self.t_for_checks = self.dataDict["t"][np.logical_and(
        self.dataDict["t"] >= self.tmin, self.dataDict["t"] <= self.tmax)]
    self.omega_gw_pericenters_interp = \
        self.get_omega_gw_extrema_interpolant("pericenters")
    self.omega_gw_apocenters_interp = \
        self.get_omega_gw_extrema_interpolant("apocenters")
    if self.domain == "frequency":
        self.tref_in, self.fref_out = \
            self.compute_tref_in_and_fref_out_from_fref_in(self.fref_in)
    self.tref_out = self.tref_in[np.logical_and(
        self.tref_in <= self.tmax, self.tref_in >= self.tmin)]
    if self.domain == "frequency":
        if len(self.fref_out) != len(self.tref_out):
            raise Exception
    if len(self.tref_out) == 0:
        raise Exception
    if "amplm_zeroecc" in self.dataDict and \
            "omegalm_zeroecc" in self.dataDict and \
            np.max(self.tref_out) > self.t_zeroecc_shifted[-1]:
        raise Exception
    if self.tref_out[0] < self.t_pericenters[0]:
        raise Exception
    if self.tref_out[-1] > self.t_pericenters[-1]:
        raise Exception
    self.eccentricity = self.compute_eccentricity(self.tref_out)
    self.mean_anomaly = self.compute_mean_anomaly(self.tref_out)
    self.check_monotonicity_and_convexity()
    if any(self.eccentricity < 0):
        debug_message("negative", self.debug_level)
    return self.make_return_dict_for_eccentricity_and_mean_anomaly()


@of("eccDefinition:eccDefinition.set_eccentricity_and_mean_anomaly_to_zero",
    "E17 E05")
def zero(self):
    if self.domain == "time":
        self.tref_out = self.tref_in
        n = len(self.tref_out)
    else:
        self.fref_out = self.fref_in
        n = len(self.fref_out)
    self.eccentricity = np.zeros(n)
    self.mean_anomaly = np.zeros(n)
    return self.make_return_dict_for_eccentricity_and_mean_anomaly()


@of("eccDefinition:eccDefinition."
    "make_return_dict_for_eccentricity_and_mean_anomaly", "E05")
def return_dict(self):
    if self.ref_ndim == 0:
        # scalar in, scalar out
        if len(self.eccentricity) != 1 or len(self.mean_anomaly) != 1:
            raise Exception
        self.eccentricity = self.eccentricity[0]
        self.mean_anomaly = self.mean_anomaly[0]
        if self.domain == "time":
            self.tref_out = self.tref_out[0]
        else:
            self.fref_out = self.fref_out[0]
    out = {"eccentricity": self.eccentricity,
           "mean_anomaly": self.mean_anomaly}
    if self.domain == "time":
        out["tref_out"] = self.tref_out
    else:
        out["fref_out"] = self.fref_out
    return out


@of("eccDefinition:eccDefinition.et_from_ew22_0pn", "E01")
def et(self, ew22):
    psi = np.arctan2(1 - ew22 ** 2, 2 * ew22)
    return np.cos(psi / 3) - np.sqrt(3) * np.sin(psi / 3)


@of("eccDefinition:eccDefinition.compute_eccentricity", "E01",
    raises="E04", attrs={"e_omega_gw": "E01"},
    boundaries=["eccDefinition:eccDefinition.et_from_ew22_0pn"])
def eccentricity(self, t):
    if any(np.atleast_1d(t) > self.tmax) or any(np.atleast_1d(t) < self.tmin):
        raise Exception
    p = np.sqrt(self.omega_gw_pericenters_interp(t))
    a = np.sqrt(self.omega_gw_apocenters_interp(t))
    self.e_omega_gw = (p - a) / (p + a)
    return self.et_from_ew22_0pn(self.e_omega_gw)


@of("eccDefinition:eccDefinition.derivative_of_eccentricity", "E01",
    raises="E04", attrs={"ecc_for_checks": "E01", "ecc_interp": "E01"})
def ecc_derivative(self, t, n=1):
    if any(np.atleast_1d(t) > self.tmax) or any(np.atleast_1d(t) < self.tmin):
        raise Exception
    if self.ecc_for_checks is None:
        self.ecc_for_checks = self.compute_eccentricity(self.t_for_checks)
    if self.ecc_interp is None:
        self.ecc_interp = get_interpolant(
            self.t_for_checks, self.ecc_for_checks,
            spline_kwargs=self.general_interp_kwargs, check_kwargs=False)
    return self.ecc_interp.derivative(n=n)(t)


@of("eccDefinition:eccDefinition.compute_mean_anomaly", "E02", raises="E04")
def mean_anomaly(self, t):
    if any(np.atleast_1d(t) > self.tmax) or any(np.atleast_1d(t) < self.tmin):
        raise Exception
    # 2 pi per pericenter, linear between them
    turns = np.interp(t, self.t_pericenters,
                      2 * np.pi * np.arange(len(self.t_pericenters)))
    return turns % (2 * np.pi)


@of("eccDefinition:eccDefinition.check_input_limits", "E04 E03 E02")
def input_limits(self, input_vals, min_allowed_val, max_allowed_val):
    if any(np.atleast_1d(input_vals) > max_allowed_val) or any(
            np.atleast_1d(input_vals) < min_allowed_val):
        raise Exception


@of("eccDefinition:eccDefinition.check_extrema_separation", "E16",
    calls={"fn:debug_message": "E15"})
def separation(self, extrema_location, extrema_type="extrema",
               max_orb_phase_diff_factor=1.5, min_orb_phase_diff=np.pi,
               always_return=False):
    if self.debug_level < 1 and always_return is False:
        return None, None
    d = np.diff(self.phase_gw[extrema_location] / 2)
    if any(d < min_orb_phase_diff):
        debug_message("too close", self.debug_level, important=False)
    if any(np.abs(d - np.pi) < np.abs(d - 2 * np.pi)):
        debug_message("closer to pi", self.debug_level, important=False)
    r = np.append([0], d[1:] / d[:-1])
    if any(r > max_orb_phase_diff_factor):
        debug_message("too far", self.debug_level, important=False)
    return d, r


@of("eccDefinition:eccDefinition.check_if_dropped_too_many_extrema", "E15",
    calls={"fn:debug_message": "E15"})
def dropped_too_many(self, original_extrema, new_extrema,
                     extrema_type="extrema", threshold_fraction=0.5):
    # not an important message: nothing to do below level 1
    if self.debug_level < 1:
        return
    if len(original_extrema) - len(new_extrema) > \
            threshold_fraction * len(original_extrema):
        debug_message("many dropped", self.debug_level, important=False)


@of("eccDefinition:eccDefinition.check_monotonicity_and_convexity", "E15",
    attrs={"decc_dt_for_checks": "E01 E15"},
    calls={"fn:debug_message": "E15"})
def monotonicity(self, check_convexity=False):
    if self.decc_dt_for_checks is None:
        self.decc_dt_for_checks = self.derivative_of_eccentricity(
            self.t_for_checks, n=1)
    if any(self.decc_dt_for_checks > 0):
        debug_message("not monotonic", self.debug_level)
    if check_convexity:
        self.d2ecc_dt_for_checks = self.derivative_of_eccentricity(
            self.t_for_checks, n=2)
        if any(self.d2ecc_dt_for_checks > 0):
            debug_message("not concave", self.debug_level)


@of("eccDefinition:eccDefinition."
    "check_pericenters_and_apocenters_appear_alternately", "E15",
    calls={"fn:debug_message": "E15"})
def alternate(self):
    if self.debug_level < 1:
        return
    p = self.pericenters_location
    a = self.apocenters_location
    if abs(len(p) - len(a)) >= 2:
        debug_message("numbers differ", self.debug_level, important=False)
    else:
        if len(p) == len(a):
            if self.t[p][0] < self.t[a][0]:
                one, two = p, a
            else:
                one, two = a, p
        elif len(p) > len(a):
            one, two = p, a
        else:
            one, two = a, p
        both = np.zeros(one.shape[0] + two.shape[0], dtype=one.dtype)
        both[::2] = one
        both[1::2] = two
        if any(np.diff(self.t[both]) < 0):
            debug_message("not alternating", self.debug_level,
                          important=False)


@of("eccDefinition:eccDefinition.plot_eccentricity", "E16",
    only=["attrs"], attrs={"ecc_for_checks": "E16 E01"})
def plot_eccentricity(self, fig=None, ax=None, add_help_text=True,
                      usetex=False, style="Notebook",
                      use_fancy_settings=True, add_vline_at_tref=True,
                      **kwargs):
    if self.ecc_for_checks is None:
        self.ecc_for_checks = self.compute_eccentricity(self.t_for_checks)


@of("eccDefinition:eccDefinition.plot_decc_dt", "E16",
    only=["attrs"], attrs={"decc_dt_for_checks": "E16 E01"})
def plot_decc_dt(self, fig=None, ax=None, add_help_text=True, usetex=False,
                 style="Notebook", use_fancy_settings=True, **kwargs):
    if self.decc_dt_for_checks is None:
        self.decc_dt_for_checks = self.derivative_of_eccentricity(
            self.t_for_checks, n=1)


@of("eccDefinition:eccDefinition.plot_omega_gw_average", "E16",
    only=["attrs"], attrs={"t_for_omega_gw_average": "E16 E03",
                           "omega_gw_average": "E16 E03"})
def plot_average(self, fig=None, ax=None, add_help_text=True, usetex=False,
                 style="Notebook", use_fancy_settings=True,
                 plot_omega_gw=True,
                 plot_orbit_averaged_omega_gw_between_extrema=False,
                 **kwargs):
    if self.omega_gw_average is None:
        self.t_for_omega_gw_average, self.omega_gw_average = \
            self.get_omega_gw_average()


@of("eccDefinition:eccDefinition.compute_res_amp_gw_and_res_omega_gw",
    "E12", raises="E12 E06")
def residuals(self):
    self.t_zeroecc = self.dataDict["t_zeroecc"]
    dt = np.diff(self.t_zeroecc)
    if not np.allclose(dt, dt[0]):
        raise Exception
    self.amp_gw_zeroecc, self.phase_gw_zeroecc, self.omega_gw_zeroecc = \
        self.get_amp_phase_omega_gw(self.dataDict, tag="_zeroecc")
    # mergers coincide
    self.t_merger_zeroecc = peak_time_via_quadratic_fit(
        self.t_zeroecc, amplitude_using_all_modes(
            self.dataDict["amplm_zeroecc"], "amplm"))[0]
    self.t_zeroecc_shifted = (self.t_zeroecc - self.t_merger_zeroecc
                              + self.t_merger)
    if self.t_zeroecc_shifted[0] > self.t[0]:
        raise Exception
    if self.t_zeroecc_shifted[-1] < self.t_merger:
        raise Exception
    self.amp_gw_zeroecc_interp = interpolate(
        self.t, self.t_zeroecc_shifted, self.amp_gw_zeroecc,
        allowExtrapolation=True, spline_kwargs=self.general_interp_kwargs,
        check_kwargs=False)
    self.omega_gw_zeroecc_interp = interpolate(
        self.t, self.t_zeroecc_shifted, self.omega_gw_zeroecc,
        allowExtrapolation=True, spline_kwargs=self.general_interp_kwargs,
        check_kwargs=False)
    self.res_amp_gw = self.amp_gw - self.amp_gw_zeroecc_interp
    self.res_omega_gw = self.omega_gw - self.omega_gw_zeroecc_interp


@of("eccDefinition:eccDefinition.get_t_average_for_orbit_averaged_omega_gw",
    "E03")
def t_average(self):
    p = self.t[self.pericenters_location]
    a = self.t[self.apocenters_location]
    self.t_average_pericenters = (p[:-1] + p[1:]) / 2
    self.t_average_apocenters = (a[:-1] + a[1:]) / 2
    both = np.append(self.t_average_apocenters, self.t_average_pericenters)
    order = np.argsort(both)
    return [both[order], order]


@of("eccDefinition:eccDefinition."
    "get_orbit_averaged_omega_gw_between_pericenters", "E03")
def average_pericenters(self):
    return (np.diff(self.phase_gw[self.pericenters_location])
            / np.diff(self.t[self.pericenters_location]))


@of("eccDefinition:eccDefinition."
    "get_orbit_averaged_omega_gw_between_apocenters", "E03")
def average_apocenters(self):
    return (np.diff(self.phase_gw[self.apocenters_location])
            / np.diff(self.t[self.apocenters_location]))


@of("eccDefinition:eccDefinition."
    "compute_orbit_averaged_omega_gw_between_extrema", "E03",
    calls={"m:check_monotonicity_of_omega_gw_average": "E03"})
def orbit_average(self, t):
    self.orbit_averaged_omega_gw_pericenters = \
        self.get_orbit_averaged_omega_gw_between_pericenters()
    self.orbit_averaged_omega_gw_apocenters = \
        self.get_orbit_averaged_omega_gw_between_apocenters()
    self.check_monotonicity_of_omega_gw_average(
        self.orbit_averaged_omega_gw_pericenters, "")
    self.check_monotonicity_of_omega_gw_average(
        self.orbit_averaged_omega_gw_apocenters, "")
    # values in the order of times: apocenters first, then pericenters
    w = np.append(self.orbit_averaged_omega_gw_apocenters,
                  self.orbit_averaged_omega_gw_pericenters)
    if not hasattr(self, "t_for_orbit_averaged_omega_gw"):
        (self.t_for_orbit_averaged_omega_gw,
         self.sorted_idx_for_orbit_averaged_omega_gw) = \
            self.get_t_average_for_orbit_averaged_omega_gw()
    w = w[self.sorted_idx_for_orbit_averaged_omega_gw]
    self.check_monotonicity_of_omega_gw_average(w, "")
    return interpolate(t, self.t_for_orbit_averaged_omega_gw, w,
                       spline_kwargs=self.general_interp_kwargs,
                       check_kwargs=False)


@of("eccDefinition:eccDefinition.check_monotonicity_of_omega_gw_average",
    "E03", state={"debug_plots": False})
def monotonic_average(self, omega_gw_average, data_name="omega_gw average"):
    if len(np.where(np.diff(omega_gw_average) <= 0)[0]) > 0:
        raise Exception


@of("eccDefinition:eccDefinition.compute_mean_of_extrema_interpolants",
    "E03")
def mean_of_interpolants(self, t):
    return (self.omega_gw_pericenters_interp(t)
            + self.omega_gw_apocenters_interp(t)) / 2


@of("eccDefinition:eccDefinition.compute_omega_gw_zeroecc", "E03 E12")
def zeroecc_average(self, t):
    return interpolate(t, self.t_zeroecc_shifted, self.omega_gw_zeroecc,
                       spline_kwargs=self.general_interp_kwargs,
                       check_kwargs=False)


@of("eccDefinition:eccDefinition.get_available_omega_gw_averaging_methods",
    "E03 E07")
def averaging_methods(self):
    return {"mean_of_extrema_interpolants":
            self.compute_mean_of_extrema_interpolants,
            "orbit_averaged_omega_gw":
            self.compute_orbit_averaged_omega_gw_between_extrema,
            "omega_gw_zeroecc": self.compute_omega_gw_zeroecc}


@of("eccDefinition:eccDefinition.get_omega_gw_average", "E03",
    attrs={"tmin_for_fref": "E03", "tmax_for_fref": "E03"})
def omega_average(self, method=None):
    if method is None:
        method = self.extra_kwargs["omega_gw_averaging_method"]
    if method == "orbit_averaged_omega_gw":
        (self.t_for_orbit_averaged_omega_gw,
         self.sorted_idx_for_orbit_averaged_omega_gw) = \
            self.get_t_average_for_orbit_averaged_omega_gw()
        self.tmin_for_fref = max(
            self.tmin, min(self.t_for_orbit_averaged_omega_gw))
        self.tmax_for_fref = min(
            self.tmax, max(self.t_for_orbit_averaged_omega_gw))
    else:
        self.tmin_for_fref = self.tmin
        self.tmax_for_fref = self.tmax
    t = self.t[np.logical_and(self.t >= self.tmin_for_fref,
                              self.t <= self.tmax_for_fref)]
    return t, self.available_averaging_methods[method](t)


@of("eccDefinition:eccDefinition.compute_tref_in_and_fref_out_from_fref_in",
    "E03", raises="E03 E07",
    calls={"m:check_monotonicity_of_omega_gw_average": "E03",
           "fn:debug_message": "E15"})
def fref_to_tref(self, fref_in):
    method = self.extra_kwargs["omega_gw_averaging_method"]
    if method not in self.available_averaging_methods:
        raise KeyError
    fref_out = self.get_fref_out(fref_in, method)
    self.t_for_omega_gw_average, self.omega_gw_average = \
        self.get_omega_gw_average(method)
    self.check_monotonicity_of_omega_gw_average(self.omega_gw_average, "")
    # time at which the average frequency is 2 pi fref
    tref = interpolate(fref_out, self.omega_gw_average / (2 * np.pi),
                       self.t_for_omega_gw_average,
                       spline_kwargs=self.general_interp_kwargs,
                       check_kwargs=False)
    if any(np.diff(tref) <= 0):
        debug_message("not increasing", self.debug_level, important=False)
    return tref, fref_out


@of("eccDefinition:eccDefinition.get_fref_bounds", "E03",
    calls={"fn:debug_message": "E15"})
def fref_bounds(self, method=None):
    if self.extra_kwargs["use_only_these_many_orbits"]:
        debug_message("short", debug_level=self.debug_level, important=False)
    if self.omega_gw_average is None:
        self.t_for_omega_gw_average, self.omega_gw_average = \
            self.get_omega_gw_average(method)
    return [min(self.omega_gw_average) / 2 / np.pi,
            max(self.omega_gw_average) / 2 / np.pi]


@of("eccDefinition:eccDefinition.get_fref_out", "E03 E04",
    boundaries=["eccDefinition:eccDefinition.check_input_limits"])
def fref_out(self, fref_in, method):
    lo, hi = self.get_fref_bounds(method)
    out = fref_in[np.logical_and(fref_in >= lo, fref_in < hi)]
    if len(out) == 0:
        raise Exception
    return out


@of("eccDefinition:eccDefinition.get_apocenters_from_pericenters", "E13")
def mid_points(self, pericenters):
    return ((pericenters[:-1] + pericenters[1:]) / 2).astype(int)


@of("eccDefinition:eccDefinition.get_label_for_plots", "E32", only=["raises"])
def label_for_plots(self, data_str):
    if data_str not in ["amp", "omega", "res_amp", "res_omega"]:
        raise KeyError
