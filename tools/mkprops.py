"""Writes /verif/properties.jsonl (kept as code so that long texts stay readable)."""
import json, pathlib
G = "gw_eccentricity/"
ED, GE, UT, LD, SF, RF = [G + x for x in ("eccDefinition.py", "gw_eccentricity.py", "utils.py", "load_data.py", "spin_filter.py", "rational_fit.py")]
FF, AF, AM = [G + x for x in ("eccDefinitionUsingFrequencyFits.py", "eccDefinitionUsingAmplitudeFits.py", "eccDefinitionUsingAmplitude.py")]
FQ, RA, RFq = [G + x for x in ("eccDefinitionUsingFrequency.py", "eccDefinitionUsingResidualAmplitude.py", "eccDefinitionUsingResidualFrequency.py")]
PC, PP, PM, PB = [G + "postprocess/" + x for x in ("core.py", "postprocess.py", "postprocess_cli.py", "postprocess_for_bilby.py")]
out = []
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    out.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

P("E01", "Eccentricity follows the published formula at every reference point",
  "For every waveform, method and reference point, the returned eccentricity is obtained from the pericenter and apocenter GW-frequency envelopes w_p, w_a evaluated at that reference time: e_w = (sqrt(w_p) - sqrt(w_a)) / (sqrt(w_p) + sqrt(w_a)), then psi = arctan2(1 - e_w^2, 2 e_w) and e = cos(psi/3) - sqrt(3) sin(psi/3) (Eqs. 4 and 8 of arXiv:2302.11257). The eccentricity derivative that is offered for diagnostics is the derivative of an interpolant through exactly this quantity. Only an opted-in small-eccentricity fallback may replace the value, and then only by zero.",
  ["inputs", "configurations"], "all waveforms, all six methods, scalar and array references in time or frequency",
  "Regression tests compare a few stored numbers at 1e-3 level tolerances for one waveform; they sample points, and cannot tell a formula error that vanishes there or that appears only for other methods/domains.",
  [ED], [("compute_eccentricity / et_from_ew22_0pn", ED), ("derivative_of_eccentricity", ED), ("measure_ecc assembles the result", ED)], ["return value of measure_eccentricity", "gwecc_object.compute_eccentricity(t)"])
P("E02", "Mean anomaly grows by 2*pi between successive pericenters",
  "For every waveform and reference point, the returned mean anomaly is the piecewise-linear function of time that is 2*pi*k at the k-th retained pericenter, interpolated between neighbouring pericenters and reduced to [0, 2*pi). It depends on pericenter times only, never on apocenters, and is never reported for a time outside the span of the pericenters.",
  ["inputs", "configurations"], "all waveforms, methods and reference points",
  "Tests store a handful of regression values; the property quantifies over all reference times, including the first/last interval and reference points at a pericenter.",
  [ED], [("compute_mean_anomaly", ED), ("range guards in measure_ecc", ED)], ["return value of measure_eccentricity", "gwecc_object.compute_mean_anomaly(t)"])
P("E03", "Frequency references map to times through the selected average frequency",
  "When references are given as frequencies, the averaged GW frequency is the one the user selected: (phase advance)/(time advance) between successive like extrema placed at the interval mid-points and ordered in time, or the mean of the two frequency envelopes, or the frequency of the quasi-circular counterpart shifted to the same merger. Each reference frequency f is mapped to the time at which that average equals 2*pi*f, a non-monotonic average is refused, and the returned frequencies are exactly the requested ones lying within the reachable range (its lower end included, its upper end not). An unknown averaging choice is refused.",
  ["inputs", "configurations"], "all waveforms, all three averaging choices, all arrays of reference frequencies",
  "The averaging test only checks that the result is finite; no test checks the averaging formulae, the association of an average with its time, or the bounds.",
  [ED], [("get_omega_gw_average and the three averaging functions", ED), ("compute_tref_in_and_fref_out_from_fref_in", ED), ("get_fref_bounds / get_fref_out", ED), ("check_monotonicity_of_omega_gw_average", ED)], ["return value of measure_eccentricity(fref_in=...)", "gwecc_object.get_fref_bounds()", "gwecc_object.get_omega_gw_average(method)"])
P("E04", "Values are only reported inside the span covered by both kinds of extrema",
  "A reference time is used only if it lies between the later of the first pericenter and first apocenter and the earlier of the last pericenter and last apocenter, inclusive; all requested times in that range are kept in the given order and all others are dropped. If nothing remains, or a public evaluation is asked for a time outside the range, an exception is raised instead of an extrapolated value. When a quasi-circular counterpart that ends too early was used, reference times beyond its end are refused as well.",
  ["inputs", "configurations"], "all reference arrays (any order, any length) and all waveforms",
  "Tests use references well inside the range; none probes boundaries, unsorted references, or a counterpart shorter than the eccentric waveform.",
  [ED], [("tmin/tmax and the tref_out mask in measure_ecc", ED), ("check_input_limits", ED), ("extrapolated-region guard", ED)], ["tref_out / exceptions of measure_eccentricity", "gwecc_object.compute_eccentricity / compute_mean_anomaly / derivative_of_eccentricity"])
P("E05", "The result always has the documented keys, shapes and pairing",
  "Every successful measurement returns eccentricity, mean_anomaly, exactly one of tref_out (time references) or fref_out (frequency references), and the measurement object; nothing else. All arrays have equal length with the k-th entries belonging to the k-th returned reference, and a scalar reference yields scalars for all of them. This holds equally when the small-eccentricity fallback returns zeros.",
  ["inputs", "configurations"], "scalar/array references, time/frequency, normal and fallback result",
  "Tests check types only for the default path with one waveform and never the fallback or frequency path together with scalars.",
  [ED, GE], [("make_return_dict_for_eccentricity_and_mean_anomaly", ED), ("set_eccentricity_and_mean_anomaly_to_zero", ED), ("measure_eccentricity", GE)], ["return value of measure_eccentricity"])
P("E06", "Malformed waveform data is refused before anything is measured",
  "A measurement raises an exception whenever: not exactly one of time/frequency reference is given; the time array is missing or not uniformly spaced; neither (complex modes) nor (amplitude and phase) are given, or both are; the (2,-2) mode is missing for a precessing system; the phase decreases or the frequency is negative at merger; the number of excluded orbits is negative or exceeds the data; or the quasi-circular counterpart is non-uniform, starts later than the waveform, or ends before the merger. Well-formed data is never refused by these checks.",
  ["inputs", "configurations"], "all input dictionaries and argument combinations",
  "Each refusal is an independent branch; the tests exercise almost none of them, and absence of a false refusal quantifies over all valid inputs.",
  [ED, AM, RA], [("__init__ and process_data_dict guards", ED), ("get_amp_phase_omega_gw", ED), ("compute_res_amp_gw_and_res_omega_gw", ED), ("check_and_raise_zeroecc_data_not_found", RA)], ["exceptions of measure_eccentricity"])
P("E07", "Unknown options are refused; known ones are honoured with stated defaults",
  "Every unknown method, frame, waveform origin, averaging or interpolation choice, and every unknown key in any option dictionary raises an exception; every known key that is omitted takes its default and every known key that is given is used as given, for every method. No recognised option is silently ignored.",
  ["inputs", "configurations"], "all option dictionaries (nested ones included) and all methods/origins",
  "Tests pass a few valid combinations only; each option of each dictionary is a separate case and an ignored option is invisible to a test that does not vary it.",
  [ED, GE, UT, LD, FF, AF, SF], [("check_kwargs_and_set_defaults", UT), ("option defaults and their consumers", ED), ("method registry", GE), ("origin registry", LD)], ["exceptions of measure_eccentricity / load_waveform", "effect of each option"])
P("E08", "Caller-owned data is never modified",
  "Measuring, loading, comparing, truncating and post-processing never change any object the caller passed in: not the data dictionary, its nested mode dictionaries or arrays, not the reference arrays, not the option dictionaries or anything nested in them. This holds for every method and option and also when the call ends in an exception.",
  ["inputs", "histories", "configurations"], "all inputs, including repeated calls with the same objects and calls that fail part-way",
  "Tests rebuild or copy inputs and never compare them before and after; in-place effects show only for particular combinations (frequencies supplied by the user, precessing data, fits methods, failures).",
  [ED, FF, AF, LD, UT, SF, G + "truncate_waveform_by_flow.py", G + "compare_methods.py", PC, PP], [("process_data_dict / get_amp_phase_omega_data", ED), ("transform_inertial_to_coprecessing", ED), ("find_extrema of the fits methods (time shift)", FF), ("check_kwargs_and_set_defaults fills dictionaries", UT)], ["the caller's dictionaries and arrays after a call"])
P("E09", "Amplitude, phase and frequency are formed from the modes by fixed conventions",
  "Amplitude is |h|, phase is minus the unwrapped argument of h (h = A exp(-i phase)), frequency is the time derivative of the phase unless the caller supplies it, and supplied amplitude, phase or frequency is used unchanged. Non-precessing systems use the (2,2) mode alone; precessing systems use A = (A22 + A2-2)/2, phase = (phase22 - phase2-2)/2 and omega = (omega22 - omega2-2)/2 of co-precessing modes, inertial modes being rotated exactly when precessing modes are declared inertial. The same conventions apply to the quasi-circular counterpart.",
  ["inputs", "configurations"], "all data dictionaries: complex modes, amplitude/phase, with or without frequencies, precessing or not, both frames",
  "The data-dictionary test compares three input styles for one aligned-spin waveform; the precessing combinations, the counterpart's conversions and supplied frequencies are not exercised by the stable tests.",
  [ED, LD, SF], [("get_amplm/phaselm/omegalm helpers", ED), ("get_amp_phase_omega_gw", ED), ("transform_inertial_to_coprecessing, get_hlm_from_amplm_phaselm", ED), ("package/unpack of modes", LD)], ["gwecc_object.amp_gw / phase_gw / omega_gw"])
P("E10", "The finite-difference derivative is exact for polynomials up to degree four",
  "The numerical time derivative used to obtain the GW frequency is a five-point scheme that, at every sample including the first two and last two, reproduces the derivative of any polynomial of degree at most four on a uniform grid, and scales inversely with the time step.",
  ["inputs"], "all sampled functions of length at least five and all time steps",
  "Tests only see the derivative through regression values of an oscillating waveform away from the ends; an edge coefficient error changes a few samples by little.",
  [UT, ED], [("time_deriv_4thOrder", UT), ("get_omegalm_from_phaselm", ED)], ["utils.time_deriv_4thOrder(y, dt)"])
P("E11", "Merger time and pre-merger truncation are consistent for all data",
  "The merger time is the vertex of the parabola fitted to the five samples around the maximum of the quadrature sum of all mode amplitudes, computed before any data is removed. If N orbits are to be excluded, time and every mode's amplitude, phase and frequency are cut at one common sample, the one whose GW phase is closest to 4*pi*N before the merger phase; with N = None nothing is cut. The quasi-circular counterpart is never cut.",
  ["inputs", "configurations"], "all waveforms (any number of modes), all N",
  "Tests use N=2 (default) or one other value with a single mode; consistency over modes and over N, and independence of later steps, is not observed.",
  [ED, UT], [("process_data_dict", ED), ("peak_time_via_quadratic_fit, amplitude_using_all_modes", UT), ("get_index_at_num_orbits_earlier_than_merger", ED)], ["gwecc_object.t, dataDict, t_merger"])
P("E12", "Residuals are taken against the merger-aligned quasi-circular counterpart",
  "Residual amplitude and frequency equal the waveform's amplitude and frequency minus the counterpart's interpolated onto the waveform's times after shifting the counterpart so that both mergers coincide. The residual methods locate extrema in exactly these residuals and refuse to run when any required counterpart data is missing.",
  ["inputs", "configurations"], "all waveform/counterpart pairs, including different samplings and time origins",
  "Tests use counterparts generated with the same origin and merger at t=0, where a missing or doubled shift has no effect.",
  [ED, RA, RFq], [("compute_res_amp_gw_and_res_omega_gw", ED), ("get_data_for_finding_extrema", RA)], ["gwecc_object.res_amp_gw / res_omega_gw"])
P("E13", "Pericenters are maxima and apocenters minima of the method's own data",
  "For every method, pericenters are local maxima and apocenters local minima of the data named by the method (amplitude, frequency, residual amplitude, residual frequency, or amplitude/frequency minus a secular fit), searched with the same user-supplied settings for both kinds. Any other kind of extremum is refused. The six advertised method names select exactly the corresponding procedures.",
  ["inputs", "configurations"], "all six methods and all finder settings",
  "Tests check that values are close to stored ones for the default settings; swapping or desynchronising the two searches under other settings is not observed.",
  [GE, AM, AF, FQ, RA, RFq, FF], [("find_extrema of each method", AM), ("find_extrema of the fits methods", FF), ("get_available_methods", GE)], ["gwecc_object.find_extrema(kind)", "get_available_methods()"])
P("E14", "Extrema clean-up only discards extrema, by the documented rules",
  "The extrema used for a measurement are a subset, in order, of those found. Extrema beyond a phase gap that is too large (relative jump above 1.5) or too small (less than 4*pi) are discarded towards the nearer end of the data, applied identically to pericenters and apocenters, and then surplus extrema of one kind before the first or after the last of the other kind are dropped down to the nearest one.",
  ["inputs"], "all sequences of found extrema",
  "The tests' waveforms are clean, so the clean-up rules seldom trigger; the rules quantify over all arrangements of missed and spurious extrema.",
  [ED], [("get_good_extrema", ED), ("drop_extrema_if_extrema_jumps, drop_extrema_if_too_close, drop_extra_extrema_at_ends", ED)], ["gwecc_object.pericenters_location / apocenters_location"])
P("E15", "The debug level alone decides which diagnostics warn, stay silent or raise",
  "At level -1 no diagnostic message is issued, at 0 only those classed as important, at 1 all of them as warnings, and at 2 every one raises an exception; any other level is refused as soon as a diagnostic is issued. Every diagnostic issued while measuring obeys the level the user chose for that measurement, and is issued exactly when the condition it reports holds.",
  ["inputs", "configurations"], "all levels, all diagnostics of all methods",
  "Tests run at one level and suppress warnings; each diagnostic at each level is a separate case.",
  [UT, ED, FF, SF, RF], [("debug_message", UT), ("call sites of debug_message", ED), ("verbosity handed to the rational fit", ED)], ["warnings/exceptions/printed text during measure_eccentricity"])
P("E16", "Diagnostics, plots and verbosity never change the measurement",
  "Turning on debug plots, diagnostic data, verbose output or a higher warning level changes neither the returned values nor the data from which later values are computed, other than by turning warnings into exceptions at the strictest level. Plotting functions never modify the measured quantities.",
  ["configurations", "histories"], "all diagnostic settings, and plots made before further evaluations",
  "Tests do not compare runs with and without diagnostics.",
  [ED, FF, AF, SF], [("plot functions and debug branches", ED), ("diagnostic collection in the fits methods", FF)], ["returned values with diagnostics on and off"])
P("E17", "Zero eccentricity is returned only when opted in and justified",
  "Zeros are returned in place of an exception only if the user opted in, fewer than two extrema of a kind were found, and the data used spans more than five orbits; in every other case with fewer than two extrema of a kind an exception is raised. With enough extrema of both kinds the opt-in has no effect.",
  ["inputs", "configurations"], "all waveforms, opt-in on and off",
  "One test exercises one waveform for one combination; the guard's truth table is not covered.",
  [ED], [("check_num_extrema", ED), ("measure_ecc fallback branch", ED)], ["return value/exception of measure_eccentricity"])
P("E18", "Frequency envelopes pass through the extrema and never extrapolate silently",
  "The pericenter (apocenter) envelope is built from exactly the times and GW frequencies at the retained pericenters (apocenters), with the interpolation scheme and settings the user selected, and needs at least two of them. Interpolation requires strictly increasing abscissae and equal lengths, reduces the spline order only when there are too few points, and refuses to evaluate outside the data unless extrapolation was explicitly requested.",
  ["inputs", "configurations"], "all extrema sets, both schemes, all spline settings",
  "Tests cover default settings; few-point data, custom settings and out-of-range evaluation are not exercised.",
  [ED, UT], [("get_omega_gw_extrema_interpolant", ED), ("get_interpolant, interpolate", UT)], ["gwecc_object.omega_gw_pericenters_interp / omega_gw_apocenters_interp", "utils.interpolate / get_interpolant"])
P("E19", "A short analysis segment surrounds all requested references",
  "When only a number of orbits around the reference is to be used, the segment runs from half that number of orbits before the earliest requested reference to half that number after the latest, regardless of the order of the references; if one side runs out of data the other is lengthened correspondingly. All waveform quantities are cut at the same samples, and a waveform with fewer orbits than requested is used in full.",
  ["inputs", "configurations"], "all reference arrays (any order), lengths of segment and waveforms",
  "One test uses sorted references and checks closeness of the result; order and end effects are not covered.",
  [ED, UT], [("get_amp_phase_omega_gw_segments and helpers", ED), ("get_approximate_tref_for_fref_using_secular_trend", ED)], ["gwecc_object.t after construction", "tref_out"])
P("E20", "Results do not depend on the origin of time",
  "Adding a constant to all input times and time references changes no eccentricity, mean anomaly, or frequency, and shifts every returned time by that constant, for every method and option.",
  ["inputs", "configurations"], "all time shifts, methods and options",
  "One test shifts one waveform for the default path; frequency references combined with short segments, refinement or filtering are not tried.",
  [ED, FF, UT, SF], [("find_extrema works in time relative to merger", FF), ("secular trend used for segments", UT), ("zero-ecc alignment", ED)], ["return value for shifted input"])
P("E21", "Results do not depend on the units of time and amplitude",
  "Rescaling time (and references) or amplitude by a positive constant leaves eccentricity and mean anomaly unchanged and rescales returned references accordingly: the code never adds, compares or feeds into a transcendental function quantities of different physical dimension, nor compares a dimensional quantity against a fixed non-zero number, apart from three fixed numerical tolerances (uniformity of the time grid, range check of interpolate, convergence of the moving fits).",
  ["inputs", "configurations"], "all unit choices, methods and options",
  "One test compares geometric with SI units for a few methods at loose tolerance for one mass.",
  [ED, FF, UT, SF], [("all arithmetic on times, phases, frequencies, amplitudes", ED), ("fits methods' tolerances", FF), ("interpolation tolerance", UT)], ["return value for rescaled input"])
P("E22", "The rational fit returns its best iterate and keeps monotonic degrees",
  "The fit returned is the iterate with the smallest residual among those computed, evaluated with the same scaling and basis it was fitted with, and is refused before fitting. When degrees are chosen automatically, they are lowered (never below one, then a spline is used) while the fit is non-monotonic and raised only while it stays monotonic and determined, the last monotonic fit being returned, and the recorded degrees are those of the returned fit.",
  ["inputs"], "all data sets and starting degrees",
  "Tests check a few smooth data sets; the search over degrees and the best-iterate selection depend on data that defeats convergence.",
  [RF, ED, UT], [("RationalFit.fit / predict", RF), ("get_rational_fit_for_extrema", ED), ("is_underdetermined / get_reduced_degrees", RF)], ["RationalFit(x, y, degrees)", "gwecc_object.rational_fit_degrees"])
P("E23", "Spin-induced oscillation filtering applies only when needed and permitted",
  "Filtering is considered only for precessing systems, is applied to amplitude and frequency separately and only if the asymmetry-to-residual ratio exceeds the threshold and the user has not disabled it; otherwise the unfiltered quantities are used unchanged. The unfiltered data always stays available, and the phase is the time integral of the filtered frequency exactly when the frequency was filtered.",
  ["inputs", "configurations"], "all precessing waveforms and filter settings",
  "The only precessing test is excluded from the stable set; threshold and opt-out combinations are not tested.",
  [SF, ED], [("check_and_filter_spin_induced_oscillations", SF), ("check_filter_requirement", SF), ("filter call in __init__", ED)], ["gwecc_object.amp_gw / phase_gw / omega_gw and *_original / *_filtered"])
P("E24", "Every waveform loader returns consistent, peak-aligned data",
  "Every loader returns times and modes of equal length, cut and resampled together, with t = 0 at the amplitude peak of the complete waveform wherever the source does not already guarantee it; counterparts it adds start no later than the waveform. Conversions between geometric and SI units use one consistent factor, and files are opened read-only.",
  ["inputs", "configurations"], "all origins and loader options",
  "Only two loaders are exercised by the stable tests; the NR, EMRI and catalog loaders need files the tests do not have.",
  [LD], [("load_* functions", LD), ("junk removal helpers", LD), ("get_zeroecc_dataDict_for_nr", LD), ("unit conversion", LD)], ["return value of load_waveform"])
P("E25", "Post-processing keeps each sample's result tied to that sample",
  "For any selection of posterior samples with distinct labels, in any order, every result carries the index of the sample whose parameters produced it, results come back in the order requested, and a failure in one sample (in generating its waveform or measuring it) is recorded for that sample with its message and affects no other. Exactly one of reference time or frequency must be given, and it, the method and the user's options reach the measurement unchanged.",
  ["inputs", "fault_sequences", "configurations"], "all posteriors, selections, and per-sample failures",
  "There are no tests of post-processing.",
  [PC, PP, PM], [("postprocess_sample / get_fref_bounds_for_sample", PC), ("PostProcess.postprocess / get_fref_bounds", PP), ("run_postprocess, run_postprocess_batch", PM)], ["PostProcessResults", "output table of the command-line tool"])
P("E26", "The parallel post-processor always terminates with every sample processed once",
  "For any number of processes, any positive batch size and any arrival order, every sample still to be processed is sent to exactly one worker exactly once, every worker that receives work is sent further work or a stop message after each answer, and every worker is stopped exactly once, also when there is nothing to do. The coordinator finishes after exactly the expected number of results and writes the final table once.",
  ["schedules", "configurations"], "all process counts, batch sizes, arrival orders",
  "There are no tests of the parallel tool; schedules cannot be sampled by unit tests.",
  [PM], [("master", PM), ("worker", PM), ("extract_batch_data", PM)], ["termination and output of the command-line tool"])
P("E27", "Resuming from a checkpoint neither repeats nor loses finished samples",
  "After an interruption, a new run skips exactly the samples recorded in the checkpoint, restores their results unchanged, and its own checkpoints keep containing them together with everything finished since, including recorded samples outside the current selection. A checkpoint is replaced as a whole, so an interruption while saving leaves the previous one intact, and one lacking the needed columns is ignored rather than misread.",
  ["crash_points", "histories"], "interruption at any point, any sequence of runs with any selections",
  "There are no tests of checkpointing; crash points are not reachable by unit tests.",
  [PM], [("load_checkpoint, save_checkpoint", PM), ("resume logic in master", PM)], ["checkpoint file", "final table after a resumed run"], [("checkpoint.parquet", "results finished so far", PM)])
P("E28", "Summaries and tables report successes and failures faithfully",
  "Summaries contain the values of the successful samples only, in order, with eccentricity and mean anomaly of the same sample at the same position, and the success percentage relative to all samples. The common reference-frequency range is the intersection of the successful samples' ranges and is refused if there is none. The final table has one row per selected sample, pairing its parameters with its own result, in the format requested.",
  ["inputs"], "all result sets with distinct sample labels, failures included",
  "There are no tests of summaries or tables.",
  [PC, PP, PM], [("get_summary, success_only, get_minmax_fref", PC), ("save_final, write_df", PM)], ["get_summary()", "output table"])
P("E29", "Command-line values are parsed to what they denote or rejected",
  "Sample selections (all/none, an integer, a comma list, start:stop[:step]), optional integers, JSON option objects and function references are parsed to exactly the value they denote, and a text that denotes none of these is rejected with an error. Every parsed value reaches the run under its own name.",
  ["inputs"], "all command lines",
  "There are no tests of the command-line tool.",
  [PM], [("parse_samples, parse_int_or_none, parse_json_dict, load_callable", PM), ("build_config_from_cli", PM)], ["configuration of a run"])
P("E30", "Method comparison uses common references and treats angles as periodic",
  "Comparing two measurements uses only reference times that both returned and that lie in the common (and user-restricted) range, pairs values belonging to the same time, and reports absolute differences; mean anomalies differing by a multiple of 2*pi count as equal. Measurements made for different requested references are refused, as is an empty range.",
  ["inputs"], "all pairs of measurements and ranges",
  "There are no tests of the comparison helper.",
  [G + "compare_methods.py"], [("compute_errors_between_methods", G + "compare_methods.py")], ["return value of compute_errors_between_methods"])
P("E31", "Waveform truncation by frequency returns consistently cut data",
  "Truncating a waveform at a lower frequency works for every supported method and input style without requiring references, and cuts the times and every mode at the one sample where the pericenter frequency of the highest mode first reaches the requested value.",
  ["inputs", "configurations"], "all data dictionaries, methods and cut-off frequencies",
  "There are no tests of the truncation helper.",
  [G + "truncate_waveform_by_flow.py", ED], [("truncate_waveform_by_flow", G + "truncate_waveform_by_flow.py")], ["return value of truncate_waveform_by_flow"])
P("E32", "Every code path refers only to names and attributes that exist",
  "No public operation of the package can fail because it refers to a function, variable, attribute or option entry that is never defined, or calls a function of the package with arguments it does not accept, whatever options are selected.",
  ["programs", "configurations"], "all functions, branches and option combinations of the package",
  "Tests reach a fraction of the branches; Python reports such errors only when the branch is executed.",
  [ED, LD, FF, SF, PM, PC, PP, G + "truncate_waveform_by_flow.py"], [("class attribute initialisation", ED), ("module imports", GE)], ["absence of NameError/AttributeError/TypeError"])
P("E33", "Different extrema-finding methods agree on eccentricity",
  "For waveforms with well resolved modulations all six methods give eccentricities and mean anomalies that agree within the accuracy quoted in the documentation.",
  ["inputs"], "all waveforms in the documented range",
  "Regression tests compare each method with its own stored value, not with each other over the parameter space.",
  [GE, ED], [("all find_extrema implementations", FF)], ["values returned by different methods"])
P("E34", "Short-segment and full-waveform measurements agree",
  "Measuring on a segment around the reference changes the eccentricity by less than the documented bound (1% for NR, 0.01% for model waveforms).",
  ["inputs", "configurations"], "all waveforms and segments of at least ten orbits",
  "One test compares a handful of configurations of one waveform.",
  [ED], [("segment selection and interpolation", ED)], ["values with and without segment"])
P("E35", "Measured eccentricity decreases smoothly down to small eccentricities",
  "Over families of waveforms with eccentricity varied over many decades, the measured eccentricity varies smoothly and approaches the model's value in the Newtonian limit.",
  ["inputs"], "waveform families of the smoothness tests",
  "The repository's smoothness scripts need waveform archives and visual judgement.",
  [ED, "EccTests/EOBTests/eob_smoothness_test.py"], [("extrema finding, interpolation", ED)], ["measured eccentricity against model eccentricity"])
P("E36", "The spin filter removes spin modulation and keeps eccentric modulation",
  "For precessing waveforms needing the filter, the filtered data retain the eccentricity-induced modulation while the spin-induced modulation is suppressed below the threshold.",
  ["inputs"], "all precessing waveforms",
  "Needs NR data that the stable tests do not have.",
  [SF], [("FilterSpinInducedOscillations", SF)], ["filtered amplitude and frequency"])
P("E37", "Nothing carries over from one call to the next",
  "What a measurement, loader, fit or post-processing step returns depends only on its arguments, the object it is called on and the files it names. No call leaves behind module-level, class-level, function-level or default-argument state from which a later call takes a value that its own arguments would not give; results kept for reuse are keyed by everything they depend on; nothing depends on chance or the clock; quantities an object keeps under one name do not change when another is rescaled; and process-wide settings (working directory, environment, floating-point error handling, random state) are not changed. Plot styles are exempt.",
  ["histories", "configurations"], "all sequences of calls within one process, in any order, with any arguments",
  "Every test starts from a fresh waveform and measures once; state left over from an earlier call with other data shows only in particular sequences.",
  [ED, GE, UT, LD, SF, RF, FF, AF, AM, PC, PP, PM], [("measure_eccentricity makes a new object per call", GE), ("get_interpolant and get_rational_fit keep nothing", UT), ("data_for_finding_extrema is a copy", AF), ("load_waveform works on copies of its options", LD)], ["results of a second call in the same process"])
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(o) + "\n" for o in out))
print(len(out))
