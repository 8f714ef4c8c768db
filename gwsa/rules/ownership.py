"""E08: no public operation changes an object that its caller owns."""
from ..alias import Solution
from ..report import Finding
from ..model import AnalysisBroken

# The operations users call.  Everything else is internal: what it may change
# is decided at the operations that call it (so a helper may fill a list that
# its caller made).  Left out on purpose: get_refined_extrema, which improves
# the lists of extrema its only caller has just made.
PUBLIC = {
    "compare_methods":
        "compute_errors_between_methods ",
    "eccDefinition":
        "eccDefinition.__init__ eccDefinition.get_recognized_dataDict_keys "
        "eccDefinition.get_amp_phase_omega_data "
        "eccDefinition.get_amplm_from_dataDict "
        "eccDefinition.get_phaselm_from_dataDict "
        "eccDefinition.get_omegalm_from_phaselm "
        "eccDefinition.process_data_dict "
        "eccDefinition.transform_inertial_to_coprecessing "
        "eccDefinition.get_hlm_from_amplm_phaselm "
        "eccDefinition.get_amp_phase_omega_gw "
        "eccDefinition.get_width_for_peak_finder_from_phase_gw "
        "eccDefinition.get_index_at_num_orbits_earlier_than_merger "
        "eccDefinition.get_default_extrema_finding_kwargs eccDefinition."
        "get_default_special_interp_kwargs_for_omega_gw_extrema "
        "eccDefinition.set_other_variables_for_extrema_interpolation "
        "eccDefinition.get_default_extra_kwargs eccDefinition.find_extrema "
        "eccDefinition.drop_extra_extrema_at_ends "
        "eccDefinition.drop_extrema_if_extrema_jumps "
        "eccDefinition.drop_extrema_if_too_close "
        "eccDefinition.get_good_extrema "
        "eccDefinition.get_rational_fit_for_extrema "
        "eccDefinition.get_approximate_degree_for_rational_fit "
        "eccDefinition.check_if_first_derivative_is_not_strictly_monotonic "
        "eccDefinition.get_available_omega_gw_extrema_interpolation_methods "
        "eccDefinition.get_omega_gw_extrema_interpolant "
        "eccDefinition.check_num_extrema "
        "eccDefinition.check_if_dropped_too_many_extrema "
        "eccDefinition.get_approximate_tref_for_fref_using_secular_trend "
        "eccDefinition.get_amp_phase_omega_gw_segments "
        "eccDefinition.measure_ecc "
        "eccDefinition.set_eccentricity_and_mean_anomaly_to_zero "
        "eccDefinition.make_return_dict_for_eccentricity_and_mean_anomaly "
        "eccDefinition.et_from_ew22_0pn eccDefinition.compute_eccentricity "
        "eccDefinition.derivative_of_eccentricity "
        "eccDefinition.compute_mean_anomaly "
        "eccDefinition.check_input_limits "
        "eccDefinition.check_extrema_separation "
        "eccDefinition.check_monotonicity_and_convexity "
        "eccDefinition.get_range_from_indices "
        "eccDefinition.check_pericenters_and_apocenters_appear_alternately "
        "eccDefinition.compute_res_amp_gw_and_res_omega_gw "
        "eccDefinition.get_t_average_for_orbit_averaged_omega_gw "
        "eccDefinition.get_orbit_averaged_omega_gw_between_pericenters "
        "eccDefinition.get_orbit_averaged_omega_gw_between_apocenters "
        "eccDefinition.compute_orbit_averaged_omega_gw_between_extrema "
        "eccDefinition.check_monotonicity_of_omega_gw_average "
        "eccDefinition.compute_mean_of_extrema_interpolants "
        "eccDefinition.compute_omega_gw_zeroecc "
        "eccDefinition.get_available_omega_gw_averaging_methods "
        "eccDefinition.get_omega_gw_average "
        "eccDefinition.compute_tref_in_and_fref_out_from_fref_in "
        "eccDefinition.get_fref_bounds eccDefinition.get_fref_out "
        "eccDefinition.make_diagnostic_plots "
        "eccDefinition.plot_eccentricity eccDefinition.plot_decc_dt "
        "eccDefinition.plot_mean_anomaly eccDefinition.plot_omega_gw "
        "eccDefinition.plot_omega_gw_average eccDefinition.plot_amp_gw "
        "eccDefinition.plot_phase_diff_ratio_between_extrema "
        "eccDefinition.plot_residual_omega_gw "
        "eccDefinition.plot_residual_amp_gw "
        "eccDefinition.plot_data_used_for_finding_extrema "
        "eccDefinition.get_label_for_plots eccDefinition.save_debug_fig "
        "eccDefinition.get_apocenters_from_pericenters "
        "eccDefinition.get_width_for_peak_finder_for_dimless_units ",
    "eccDefinitionUsingAmplitude":
        "eccDefinitionUsingAmplitude.__init__ "
        "eccDefinitionUsingAmplitude.get_data_for_finding_extrema "
        "eccDefinitionUsingAmplitude.find_extrema ",
    "eccDefinitionUsingAmplitudeFits":
        "eccDefinitionUsingAmplitudeFits.__init__ eccDefinitionUsingAmplitu"
        "deFits.get_default_kwargs_for_fits_methods ",
    "eccDefinitionUsingFrequency":
        "eccDefinitionUsingFrequency.__init__ "
        "eccDefinitionUsingFrequency.get_data_for_finding_extrema ",
    "eccDefinitionUsingFrequencyFits":
        "envelope_fitting_function.__init__ "
        "envelope_fitting_function.format "
        "eccDefinitionUsingFrequencyFits.__init__ eccDefinitionUsingFrequen"
        "cyFits.get_default_kwargs_for_fits_methods "
        "eccDefinitionUsingFrequencyFits.set_fit_variables "
        "eccDefinitionUsingFrequencyFits.find_extrema "
        "eccDefinitionUsingFrequencyFits.FindExtremaNearIdxRef "
        "eccDefinitionUsingFrequencyFits.compute_distance_and_prominence ",
    "eccDefinitionUsingResidualAmplitude":
        "eccDefinitionUsingResidualAmplitude.__init__ eccDefinitionUsingRes"
        "idualAmplitude.check_and_raise_zeroecc_data_not_found "
        "eccDefinitionUsingResidualAmplitude.get_data_for_finding_extrema ",
    "eccDefinitionUsingResidualFrequency":
        "eccDefinitionUsingResidualFrequency.__init__ "
        "eccDefinitionUsingResidualFrequency.get_data_for_finding_extrema ",
    "gw_eccentricity":
        "get_available_methods measure_eccentricity ",
    "load_data":
        "get_available_waveform_origins get_load_waveform_docs "
        "get_load_waveform_defaults make_a_sub_dict load_waveform "
        "load_LAL_waveform load_LAL_waveform_using_hack "
        "generate_LAL_waveform time_dimless_to_mks amplitude_dimless_to_mks "
        "get_defaults_for_nr load_lvcnr_waveform download_sxs_waveform "
        "load_sxs_catalogformat load_sxs_catalogformat_old "
        "check_sxs_data_dir make_return_dict_for_sxs_catalog_format "
        "get_modes_dict_from_sxs_catalog_old_format "
        "get_modes_dict_from_sxs_catalog_format "
        "get_params_dict_from_sxs_metadata get_zeroecc_dataDict_for_nr "
        "reomve_junk_from_nr_data "
        "remove_junk_from_sxs_catalogformat_using_horizons_data "
        "get_num_orbits_duration_from_horizon_data package_modes_for_scri "
        "unpack_scri_modes get_coprecessing_data_dict load_h22_from_EOBfile "
        "load_EOB_EccTest_file load_EOB_waveform load_lvcnr_hack "
        "load_EMRI_waveform ",
    "truncate_waveform_by_flow":
        "truncate_waveform_by_flow ",
    "postprocess.core":
        "filter_posterior_columns get_data_dict get_fref_bounds_for_sample "
        "postprocess_sample PostProcessResults.to_dataframe "
        "PostProcessResults.success_only PostProcessResults.get_summary "
        "FrefBoundsResults.to_dataframe FrefBoundsResults.success_only "
        "FrefBoundsResults.get_summary FrefBoundsResults.get_minmax_fref ",
    "postprocess.postprocess":
        "PostProcess.__init__ PostProcess.get_posterior "
        "PostProcess.get_injection_params "
        "PostProcess.get_injection_data_dict "
        "PostProcess.get_injection_egw_and_lgw "
        "PostProcess.plot_eccentricity_posterior "
        "PostProcess.plot_mean_per_ano_posterior PostProcess.postprocess "
        "PostProcess.postprocess_summary "
        "PostProcess.get_gw_eccentricity_posterior "
        "PostProcess.plot_egw_posterior PostProcess.plot_lgw_posterior "
        "PostProcess.get_fref_bounds ",
    "postprocess.postprocess_cli":
        "parse_int_or_none parse_samples parse_json_dict load_callable "
        "run_postprocess run_postprocess_batch extract_batch_data write_df "
        "load_checkpoint save_checkpoint save_final get_bilby_posterior "
        "master worker build_config_from_cli main ",
    "postprocess.postprocess_for_bilby":
        "PostProcessForBilby.__init__ PostProcessForBilby.get_posterior "
        "PostProcessForBilby.get_injection_params ",
}


def entries(repo):
    out = []
    for m, names in PUBLIC.items():
        mod = repo.modules.get(repo.package + "." + m)
        if mod is None:
            continue
        for q in names.split():
            c, _, f = q.rpartition(".")
            if c:
                k = mod.classes.get(c)
                fi = k.methods.get(f) if k is not None else None
            else:
                fi = mod.functions.get(f)
            if fi is not None:
                out.append(fi)
    return out


def solution(repo):
    s = repo.__dict__.get("_alias")
    if s is None:
        es = entries(repo)
        if len(es) < 60:
            raise AnalysisBroken("most of the public operations are gone")
        s = repo.__dict__["_alias"] = (es, Solution(repo, es))
    return s


def ownership(repo, prop):
    es, sol = solution(repo)
    bad = {}
    for fi, o, site in sol.muts:
        for own in sol.owned(o):
            bad.setdefault(site.key(), (site, set()))[1].add(own)
    for key in sorted(bad):
        site, own = bad[key]
        p = sorted(f"{p} of {f}" for f, p in own)
        yield Finding("ownership", f"{site.func}: {site.what}", "violation",
                      f"{site.relpath}:{site.line}",
                      f"changes an object the caller owns ({', '.join(p[:4])}"
                      f"{' ...' if len(p) > 4 else ''})")
    for fi in es:
        yield Finding("ownership", fi.qual, "holds", fi.where, "")


RULES = {"E08": ownership}
