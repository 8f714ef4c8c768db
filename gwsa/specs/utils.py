"""Reference definitions for gw_eccentricity.utils."""
import numpy as np
import warnings
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.interpolate import PchipInterpolator
from scipy.optimize import least_squares
from gw_eccentricity.rational_fit import RationalFit
from gw_eccentricity.utils import (
    check_kwargs_and_set_defaults, get_default_spline_kwargs,
    get_default_rational_fit_kwargs, get_interpolant)


@of("utils:amplitude_using_all_modes", "E11 E09 E12 E24")
def amplitude_using_all_modes(mode_dict, data_type="hlm"):
    # quadrature sum over all modes
    total = 0
    for mode in mode_dict.keys():
        if data_type == "hlm":
            total += np.abs(mode_dict[mode]) ** 2
        elif data_type == "amplm":
            total += mode_dict[mode] ** 2
        else:
            raise KeyError
    return np.sqrt(total)


@of("utils:peak_time_via_quadratic_fit", "E11 E12 E24 E20 E21")
def peak_time_via_quadratic_fit(t, func):
    # vertex of the least-squares parabola through the five samples around
    # the maximum
    i = max(2, min(len(t) - 3, np.argmax(func)))
    x = t[i - 2:i + 3] - t[i]
    y = func[i - 2:i + 3]
    basis = np.array([np.ones(5), x, x ** 2])
    inverse = np.linalg.inv(np.array([[u.dot(v) for u in basis]
                                      for v in basis]))
    moments = np.array([y.dot(u) for u in basis])
    c = np.array([moments.dot(row) for row in inverse])
    return t[i] - c[1] / (2 * c[2]), c[0] - c[1] ** 2 / 4 / c[2]


@of("utils:check_kwargs_and_set_defaults", "E07")
def check_kwargs(user_kwargs=None, default_kwargs=None, name="",
                 location=None):
    if user_kwargs is None:
        user_kwargs = {}
    for kw in user_kwargs.keys():
        if kw not in default_kwargs:
            raise ValueError
    for kw in default_kwargs.keys():
        if kw not in user_kwargs:
            user_kwargs[kw] = default_kwargs[kw]
    return user_kwargs


@of("utils:raise_exception_if_none", "E07 E24")
def raise_exception_if_none(kwargs, keys_to_check, name, location):
    for kw in keys_to_check:
        if kwargs[kw] is None:
            raise Exception


@of("utils:get_default_spline_kwargs", "E07 E18")
def default_spline_kwargs():
    return {"w": None, "bbox": [None, None], "k": 3, "ext": 2,
            "check_finite": False}


@of("utils:interpolate", "E18 E12")
def interpolate(newX, oldX, oldY, allowExtrapolation=False,
                interpolator="spline", spline_kwargs=None,
                check_kwargs=True):
    if len(oldY) != len(oldX):
        raise Exception
    if not allowExtrapolation and (
            np.min(newX) < np.min(oldX) - 1e-10
            or np.max(newX) > np.max(oldX) + 1e-10):
        raise Exception
    return get_interpolant(oldX, oldY, allowExtrapolation, interpolator,
                           spline_kwargs, check_kwargs)(newX)


@of("utils:get_interpolant", "E18", raises="E18 E07")
def interpolant(oldX, oldY, allowExtrapolation=False, interpolator="spline",
                spline_kwargs=None, check_kwargs=True):
    if not np.all(np.diff(oldX) > 0):
        raise Exception
    if interpolator == "spline":
        if check_kwargs:
            spline_kwargs = check_kwargs_and_set_defaults(
                spline_kwargs, get_default_spline_kwargs(), "spline kwargs",
                "utils.get_default_spline_kwargs")
        if len(oldX) < 2:
            raise Exception
        kwargs = spline_kwargs.copy()
        if len(oldX) <= spline_kwargs["k"]:
            kwargs["k"] = len(oldX) - 1
        # outside the data: an error unless extrapolation is allowed
        if allowExtrapolation and kwargs["ext"] == 2:
            kwargs["ext"] = 0
        if not allowExtrapolation and kwargs["ext"] != 2:
            kwargs["ext"] = 2
        return InterpolatedUnivariateSpline(oldX, oldY, **kwargs)
    if interpolator == "monotonic_spline":
        return PchipInterpolator(oldX, oldY, extrapolate=allowExtrapolation)
    raise ValueError


@of("utils:get_default_rational_fit_kwargs", "E07 E22")
def default_rational_fit_kwargs():
    return {"degrees": None, "max_iterations": 20, "verbose": False,
            "tol": 1e-7}


@of("utils:get_rational_fit", "E22 E18 E07", calls={"m:fit": "E22"})
def rational_fit(x, y, rational_fit_kwargs=None, check_kwargs=True):
    if check_kwargs:
        rational_fit_kwargs = check_kwargs_and_set_defaults(
            rational_fit_kwargs, get_default_rational_fit_kwargs(),
            "rational_fit_kwargs", "utils.get_default_rational_fit_kwargs")
    rat = RationalFit(x, y, degrees=rational_fit_kwargs["degrees"],
                      verbose=rational_fit_kwargs["verbose"])
    rat.fit(max_iterations=rational_fit_kwargs["max_iterations"],
            tol=rational_fit_kwargs["tol"])
    return rat


@of("utils:debug_message", "E15", calls={"warnings.warn": "E15"})
def debug_message(message, debug_level, important=True,
                  point_to_verbose_output=False):
    if debug_level not in [-1, 0, 1, 2]:
        raise ValueError
    if debug_level == 2:
        raise Exception
    if debug_level == 1 or (debug_level == 0 and important):
        warnings.warn(message, stacklevel=2)


@of("utils:QusicircularFitForMappingFrequencyToTime.__init__", "E19 E20")
def secular_init(self, times, frequencies):
    self.times = times
    self.frequencies = frequencies
    self.t0 = (times[0] + times[-1]) / 2


@of("utils:QusicircularFitForMappingFrequencyToTime.residual", "E19 E20")
def secular_residual(self, p, t, w):
    return w - self.model(t, p[0], p[1], p[2])


@of("utils:QusicircularFitForMappingFrequencyToTime.model", "E19 E20")
def secular_model(self, t, f0, f1, T):
    n = -(T - self.t0) * f1 / f0
    return f0 * (T - self.t0) ** (-n) * (T - t) ** n


@of("utils:QusicircularFitForMappingFrequencyToTime.least_square_fit",
    "E19 E20")
def secular_fit(self):
    f0 = (max(self.frequencies) + min(self.frequencies)) / 2
    return least_squares(
        self.residual, [f0, 3 / 8 * f0 / -self.t0, 0],
        bounds=[[0, 0, 0.8 * self.times[-1]],
                [10 * f0, 10 * f0 / -self.t0, -self.t0]],
        args=(self.times, self.frequencies), method="trf", max_nfev=100)


@of("utils:time_deriv_4thOrder", "E10 E09 E21")
def time_derivative(y, dt):
    # the five-point stencils that are exact for polynomials of degree four;
    # at the edges the stencil is shifted into the data
    d = 0 * y
    d[2:-2] = (y[:-4] - 8 * y[1:-3] + 8 * y[3:-1] - y[4:]) / 12
    d[0] = y[:5].dot(np.array([-25, 48, -36, 16, -3]) / 12)
    d[1] = y[:5].dot(np.array([-3, -10, 18, -6, 1]) / 12)
    d[-2] = y[-5:].dot(np.array([-1, 6, -18, 10, 3]) / 12)
    d[-1] = y[-5:].dot(np.array([3, -16, 36, -48, 25]) / 12)
    return d / dt
