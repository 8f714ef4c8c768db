"""E20, E21: units and time origin, inferred for every analysed function."""
from fractions import Fraction
from .. import units as un
from ..units import Infer, Types, Q, Obj, Other, Tup, Fn, Conflict
from ..spec import load_specs, run_spec, resolve_target, locate
from ..interp import Unsupported
from ..terms import walk, TRUE, FALSE, T as Term, is_num, subst
from ..report import Finding
from ..model import AnalysisBroken

MODULES = ("eccDefinition", "utils", "rational_fit", "spin_filter",
           "gw_eccentricity:")

# what is stored under a name in a dictionary
KEYS = {
    "t": "T@", "t_zeroecc": "T@z", "hlm": "A", "amplm": "A",
    "phaselm": "1", "omegalm": "1/T", "hlm_zeroecc": "A",
    "amplm_zeroecc": "A", "phaselm_zeroecc": "1", "omegalm_zeroecc": "1/T",
    "amp_gw": "A", "phase_gw": "1", "omega_gw": "1/T",
    "amp_gw_zeroecc": "A", "phase_gw_zeroecc": "1",
    "omega_gw_zeroecc": "1/T",
    "eccentricity": "1", "mean_anomaly": "1", "tref_out": "T@",
    "fref_out": "1/T", "width": "1", "distance": "1",
    "num_orbits_to_exclude_before_merger": "1",
    "filter_threshold": "1", "alpha": "1", "segment_size": "1",
    "taper_width": "1", "f_spin_lo_frac": "1", "f_spin_hi_frac": "1",
    "fecc_lo_frac": "1", "fecc_hi_frac": "1", "padding_length": "1",
    "fit_bounds_max_amp_factor": "1", "fit_bounds_max_nPN_factor": "1",
    "nPN": "1", "prominence_factor": "1", "distance_factor": "1",
    "num_orbits": "1", "num_orbits_for_global_fit": "1",
}
# attributes, by the root class they belong to
ATTRS = {
    "eccDefinition": {
        "t": "T@", "t_diff": "T", "amp_gw": "A", "phase_gw": "1",
        "omega_gw": "1/T", "t_merger": "T@", "phase_gw_merger": "1",
        "tref_in": "T@", "fref_in": "1/T", "tref_out": "T@",
        "fref_out": "1/T", "tmin": "T@", "tmax": "T@",
        "t_for_checks": "T@", "t_pericenters": "T@", "t_apocenters": "T@",
        "phase_gw_pericenters": "1", "phase_gw_apocenters": "1",
        "omega_gw_average": "1/T", "t_for_omega_gw_average": "T@",
        "eccentricity": "1", "mean_anomaly": "1", "e_omega_gw": "1",
        "ecc_for_checks": "1", "decc_dt_for_checks": "1/T",
        "d2ecc_dt_for_checks": "1/T^2", "ecc_interp": "T@>1",
        "res_amp_gw": "A", "res_omega_gw": "1/T",
        "t_zeroecc": "T@z", "t_zeroecc_diff": "T",
        "t_merger_zeroecc": "T@z", "t_zeroecc_shifted": "T@",
        "amp_gw_zeroecc": "A", "phase_gw_zeroecc": "1",
        "omega_gw_zeroecc": "1/T",
        "amp_gw_zeroecc_interp": "A", "omega_gw_zeroecc_interp": "1/T",
        "data_for_finding_extrema": "D",
        "omega_gw_pericenters_interp": "T@>1/T",
        "omega_gw_apocenters_interp": "T@>1/T",
        "tmin_for_fref": "T@", "tmax_for_fref": "T@",
        "t_for_orbit_averaged_omega_gw": "T@",
        "orbit_averaged_omega_gw_pericenters": "1/T",
        "orbit_averaged_omega_gw_apocenters": "1/T",
        "segment_start_index": "1", "segment_end_index": "1",
        "pericenters_location": "1", "apocenters_location": "1",
        "fit_bounds_max_amp_factor": "1", "fit_bounds_max_nPN_factor": "1",
        "nPN": "1", "prominence_factor": "1", "distance_factor": "1",
        "num_orbits": "1", "num_orbits_for_global_fit": "1",
        "ref_ndim": "1",
    },
    "envelope_fitting_function": {"t0": "a@"},
    # times relative to the merger: see the call in
    # get_approximate_tref_for_fref_using_secular_trend
    "QusicircularFitForMappingFrequencyToTime": {
        "times": "a", "frequencies": "b", "t0": "a"},
    "RationalFit": {"x": "a@", "y": "b", "x_min": "a@", "x_max": "a@"},
    "FilterSpinInducedOscillations": {
        "t": "T@", "t_merger": "T@", "data": "D", "data_copr_22": "D",
        "data_copr_2m2": "D", "t_cross": "T@", "t_mid": "T@",
        "delta_T": "T", "delta_T_interp": "T@>T", "segment_size": "1",
        "filter_threshold": "1"},
}
# attributes that mean something else while some functions run
_FITS = {"t": "T", "t_extrema": "T"}
OVERRIDES = {
    "eccDefinitionUsingFrequencyFits.__init__": {
        "data_for_finding_extrema": "1/T"},
    "eccDefinitionUsingAmplitudeFits.__init__": {
        "data_for_finding_extrema": "A"},
    # find_extrema makes times relative to the merger before it calls these
    "eccDefinitionUsingFrequencyFits.compute_distance_and_prominence": _FITS,
    "eccDefinitionUsingFrequencyFits.get_refined_extrema": _FITS,
    "eccDefinitionUsingFrequencyFits.FindExtremaNearIdxRef": _FITS,
}
# fixed tolerances that are part of the documented behaviour
TOLERANCES = {
    ("eccDefinition.__init__", "default absolute tolerance of "
     "numpy.allclose against units T"),
    ("eccDefinition.compute_res_amp_gw_and_res_omega_gw",
     "default absolute tolerance of numpy.allclose against units T"),
    ("eccDefinitionUsingFrequencyFits.find_extrema",
     "argument TOL of FindExtremaNearIdxRef: units 1 against D"),
    ("interpolate", "sum of terms with units 1 and interpolate.a"),
}
# parameters and results of the functions of the package
SIGS = {}


def _sigs(text):
    for line in text.strip().splitlines():
        line = line.strip()
        if not line:
            continue
        name, rest = line.split("(", 1)
        ps, ret = rest.rsplit("->", 1)
        ps = ps.strip()
        assert ps.endswith(")"), line
        d = {}
        for p in ps[:-1].split(";"):
            if p.strip():
                k, v = p.split(":", 1)
                d[k.strip()] = v.strip()
        SIGS.setdefault(name, []).append((d, ret.strip()))


_sigs("""
__init__(tref_in:T@; fref_in:1/T; num_orbits_to_exclude_before_merger:1) -> _
measure_eccentricity(tref_in:T@; fref_in:1/T; num_orbits_to_exclude_before_merger:1) -> ?
get_omegalm_from_phaselm(t:a@; phaselm:1) -> 1/a
get_amp_phase_omega_gw() -> (A, 1, 1/T)
get_amplm_from_dataDict() -> ?
get_phaselm_from_dataDict() -> ?
get_hlm_from_amplm_phaselm(amplm_dict:A; phaselm_dict:1) -> A
get_width_for_peak_finder_from_phase_gw(t:T@; phase_gw:1; phase_gw_merger:1; num_orbits_before_merger:1) -> 1
get_index_at_num_orbits_earlier_than_merger(phase_gw:1; phase_gw_merger:1; num_orbits:1) -> 1
get_default_extrema_finding_kwargs(width:1) -> ?
drop_extra_extrema_at_ends(pericenters:1; apocenters:1) -> (1, 1)
drop_extrema_if_extrema_jumps(extrema_location:1; max_r_delta_phase_gw_extrema:1) -> 1
drop_extrema_if_too_close(extrema_location:1; min_phase_gw_difference:1) -> 1
get_good_extrema(pericenters:1; apocenters:1; max_r_delta_phase_gw_extrema:1) -> (1, 1)
get_rational_fit_for_extrema(x:T@; y:1/T) -> T@>1/T
check_if_first_derivative_is_not_strictly_monotonic(x:a@; y:b; tol:1) -> 1
get_omega_gw_extrema_interpolant() -> T@>1/T
check_num_extrema(extrema:1) -> 1
get_approximate_tref_for_fref_using_secular_trend(fref:1/T) -> T@
_get_reference_bounds() -> (T@, T@)
_get_phase_bounds(t_left:T@; t_right:T@) -> (1, 1)
_get_segment_indices(phase_left:1; phase_right:1) -> ?
et_from_ew22_0pn(ew22:1) -> 1
compute_eccentricity(t:T@) -> 1
derivative_of_eccentricity(t:T@; n:1) -> ?
compute_mean_anomaly(t:T@) -> 1
check_input_limits(input_vals:a@; min_allowed_val:a@; max_allowed_val:a@) -> ?
check_extrema_separation(extrema_location:1) -> ?
get_orbit_averaged_omega_gw_between_pericenters() -> 1/T
get_orbit_averaged_omega_gw_between_apocenters() -> 1/T
compute_orbit_averaged_omega_gw_between_extrema(t:T@) -> 1/T
check_monotonicity_of_omega_gw_average(omega_gw_average:1/T) -> ?
compute_mean_of_extrema_interpolants(t:T@) -> 1/T
compute_omega_gw_zeroecc(t:T@) -> 1/T
get_omega_gw_average() -> (T@, 1/T)
compute_tref_in_and_fref_out_from_fref_in(fref_in:1/T) -> (T@, 1/T)
get_fref_bounds() -> (1/T, 1/T)
get_fref_out(fref_in:1/T) -> 1/T
find_extrema() -> 1
get_apocenters_from_pericenters(pericenters:1) -> 1
get_data_for_finding_extrema() -> ?
amplitude_using_all_modes(mode_dict:b) -> b
peak_time_via_quadratic_fit(t:a@; func:b) -> (a@, b)
interpolate(newX:a@; oldX:a@; oldY:b@) -> b@
get_interpolant(oldX:a@; oldY:b@) -> a@>b@
get_rational_fit(x:a@; y:b) -> a@>b
time_deriv_4thOrder(y:b@; dt:a) -> b/a
compute_distance_and_prominence(f_fit:T>D; idx_lo:1; idx_hi:1) -> (1, D)
get_refined_extrema(t_extrema:T; data_extrema:D; phase_gw_extrema:1; f_fit:T>D) -> (T, D, 1)
FindExtremaNearIdxRef(idx_ref:1; sign:1; Nbefore:1; Nafter:1; K:1; f_fit:T>D; TOL:D) -> ?
_scale_x(x:a@; x_min:a@; x_max:a@) -> 1
predict(x_new:a@) -> b
_arnoldi_basis(x:1; degree:1; w:?) -> ?
_find_intersection_points(t:T@; x:b; y:b) -> (T@, T@, T)
_build_delta_T_interpolant(t_mid:T@; delta_t:T) -> T@>T
_pn_model(t:a@; t_merger:a@; power:1) -> ?
_pn_fit_for_secular_trend(t:a@; x:b; t_merger:a@) -> ?
check_filter_requirement(t:T@; data_copr_22:b; data_copr_2m2:b; t_merger:T@; threshold:1) -> 1
_make_lowpass_mask(frequencies:b; f_cutoff:b; taper_width:1) -> 1
_condition_data_for_fft(data:b; padding_length:1) -> (b, b)
_get_fcut_fecc_fspin(t:T@; data:b; f_spin_guess:1/T; fspin_lo_frac:1; fspin_hi_frac:1; fecc_lo_frac:1; fecc_hi_frac:1) -> (1/T, 1/T, 1/T, 1/T, b)
_make_segment(t_mid:T@) -> (T@, D)
_f_spin_from_delta_T(t:T@) -> 1/T
_get_secular_and_residual(t:T@; data:D) -> (D, D)
_filter_segment(t_mid:T@; padding_length:1; taper_width:1; f_spin_lo_frac:1; f_spin_hi_frac:1; fecc_lo_frac:1; fecc_hi_frac:1) -> ?
_combine_segments() -> D
apply_filter(padding_length:1; taper_width:1; alpha:1; f_spin_lo_frac:1; f_spin_hi_frac:1; fecc_lo_frac:1; fecc_hi_frac:1) -> ?
check_and_filter_spin_induced_oscillations(t_merger:T@) -> ?
model(t:a; f0:b; f1:b/a; T:a) -> b
residual(p:(b, b/a, a); t:a; w:b) -> b
least_square_fit() -> ?
""")
# several functions share these names
CLASS_SIGS = {
    ("envelope_fitting_function", "__init__"): ({"t0": "a@"}, "_"),
    ("envelope_fitting_function", "__call__"): (
        {"t": "a@", "f0": "b", "f1": "b/a", "T": "a@"}, "b"),
    ("RationalFit", "__init__"): ({"x": "a@", "y": "b"}, "_"),
    ("RationalFit", "__call__"): ({"x_new": "a@"}, "b"),
    ("RationalFit", "fit"): ({"max_iterations": "1", "tol": "1"}, "_"),
    ("QusicircularFitForMappingFrequencyToTime", "__init__"): (
        {"times": "a", "frequencies": "b"}, "_"),
    ("FilterSpinInducedOscillations", "__init__"): (
        {"t_merger": "T@", "segment_size": "1", "filter_threshold": "1"},
        "_"),
}


class Tables:
    lib = un.LIB
    methods = un.METHODS

    def __init__(self, scope, qual):
        self.scope = scope
        self.over = OVERRIDES.get(qual, {})

    def key(self, k):
        if k.op == "const" and k.data[0] == "str":
            return KEYS.get(k.data[1])
        if k.op == "fstr" and k.args and k.args[0].op == "const" and \
                len(k.args) == 2:
            return KEYS.get(k.args[0].data[1])
        return None

    def attr(self, obj, name, fam):
        if obj.op == "sym" and obj.data == "self" or obj.op == "instof":
            if name in self.over:
                return self.over[name]
            return ATTRS.get(fam, {}).get(name)
        if obj.op == "call" and obj.data[0].startswith("cls:"):
            t = ATTRS.get(obj.data[0][4:], {}).get(name)
            # type variables of another object are unrelated to ours
            return t if t and not any(c in t for c in "abD") else None
        return None

    def callsig(self, f):
        if f.op == "call" and f.data[0].startswith("cls:"):
            return CLASS_SIGS.get((f.data[0][4:], "__call__"))
        if f.op == "boundref":
            s = SIGS.get(f.data)
            return s[0] if s else None
        return None

    def sig(self, head):
        kind, name = head.split(":", 1)
        if kind == "cls":
            s = CLASS_SIGS.get((name, "__init__"))
            return (s[0], "?") if s else None
        s = SIGS.get(name)
        return s[0] if s else None


def declared(fi, root):
    s = CLASS_SIGS.get((root, fi.name))
    if s is not None:
        return s
    if fi.name in ("__init__", "__call__") and root != "eccDefinition":
        return {}, "?"
    s = SIGS.get(fi.name)
    return s[0] if s else ({}, "?")


def infer(fi, res, root):
    """Conflicts found in one analysed function, and what was covered."""
    todo = []
    for e in res.events:
        todo.append(("", None, e.guard))
        for a in e.args:
            if isinstance(a, Term):
                todo.append(("", None, res.it.freeze(a)))
    todo.append(("ret", None, res.ret))
    todo += [("attr", n, t) for n, t in res.attrs().items()]
    return settle(fi, res, root, todo, 4)


def settle(fi, res, root, todo, depth):
    """Where values are of one kind or another as a condition has it, both
    cases of the condition are looked at on their own."""
    inf = infer_case(fi, res, root, todo)
    if not inf.split or not depth:
        return inf
    c = min(inf.split, key=lambda x: x.id)
    inf.conf, seen = [], set()
    for v in (TRUE, FALSE):
        memo, m = {}, {c.id: v}
        if v is TRUE and c.op == "eq":
            # a value equal to this constant equals no other
            m.update((x.id, FALSE) for _, _, t in todo for x in walk(t)
                     if x.op == "eq" and x is not c and any(
                         a in c.args and b.op == d.op == "const"
                         for a, b in (x.args, x.args[::-1])
                         for d in c.args if d is not a))
        case = settle(fi, res, root, [
            (k, n, subst(t, m, memo)) for k, n, t in todo], depth - 1)
        for x in case.conf:
            if (x.kind, x.text) not in seen:
                seen.add((x.kind, x.text))
                inf.conf.append(x)
    return inf


def infer_case(fi, res, root, todo):
    ps, ret = declared(fi, root)
    scope = root or fi.name
    inf = Infer(Tables(scope, fi.qual), fi.qual, {}, root)
    ty = Types(inf.sv, rigid=scope)
    # parameters are declared in order; the reference may rename them
    for n, v in res.args.items():
        if n in ps and isinstance(v, Term) and v.op == "sym":
            inf.params[v.data] = ty.make(ps[n])
    for kind, n, t in todo:
        v = inf.ev(t)
        if kind == "ret" and not isinstance(v, Other):
            inf.agree(v, ty.make(ret), t, "returned value")
        elif kind == "attr":
            s = inf.tb.over.get(n) or ATTRS.get(root, {}).get(n)
            if s is not None:
                inf.agree(v, ty.make(s), t, f"attribute {n}")
    return inf


def analyse_all(repo):
    r = repo.__dict__.get("_rule_units")
    if r is not None:
        return r
    out = []
    for s in load_specs(repo):
        if not s.target.startswith(MODULES):
            continue
        fi = resolve_target(repo, s.target)
        root = fi.cls.mro()[-1].name if fi.cls is not None else None
        try:
            _, _, res, _, _ = run_spec(repo, s)
            inf = infer(fi, res, root)
        except Exception as e:
            out.append((s, fi, None, None, f"{type(e).__name__}: {e}"))
            continue
        out.append((s, fi, res, inf, ""))
    repo.__dict__["_rule_units"] = out
    return out


def make(kind, rule):
    def f(repo, prop):
        done = {}
        n = 0
        for s, fi, res, inf, why in analyse_all(repo):
            if inf is None:
                yield Finding(rule, fi.qual, "undecided", fi.where, why)
                continue
            n += 1
            bad = [c for c in inf.conf if c.kind == kind and
                   (fi.qual, c.text) not in TOLERANCES]
            for c in bad:
                w = locate(c.term, res.locs, fi.where)
                k = (fi.qual, c.text)
                if k not in done:
                    done[k] = Finding(rule, f"{fi.qual}: {c.text}",
                                      "violation", w, c.text)
                    yield done[k]
            if not bad and (fi.qual, None) not in done:
                done[(fi.qual, None)] = True
                yield Finding(rule, fi.qual, "holds", fi.where)
        if n < 60:
            raise AnalysisBroken("most of the measuring functions are gone")
    return f


RULES = {"E20": make("origin", "time-origin"),
         "E21": make("units", "units")}
