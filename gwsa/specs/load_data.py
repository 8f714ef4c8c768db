"""Reference definitions for gw_eccentricity.load_data."""
import copy
import json
import os
import warnings
import h5py
import lal
import lalsimulation as lalsim
import numpy as np
import scri
import spherical_functions as sf
import sxs
from gw_eccentricity.utils import (
    peak_time_via_quadratic_fit, amplitude_using_all_modes,
    check_kwargs_and_set_defaults, raise_exception_if_none, interpolate)
from gw_eccentricity.load_data import (
    get_load_waveform_defaults, get_available_waveform_origins,
    get_defaults_for_nr, load_waveform, load_LAL_waveform,
    load_LAL_waveform_using_hack, generate_LAL_waveform,
    time_dimless_to_mks, amplitude_dimless_to_mks, load_lvcnr_waveform,
    load_sxs_catalogformat, load_sxs_catalogformat_old, check_sxs_data_dir,
    make_return_dict_for_sxs_catalog_format,
    get_modes_dict_from_sxs_catalog_old_format,
    get_modes_dict_from_sxs_catalog_format,
    get_params_dict_from_sxs_metadata, get_zeroecc_dataDict_for_nr,
    reomve_junk_from_nr_data, load_EOB_waveform,
    remove_junk_from_sxs_catalogformat_using_horizons_data,
    get_num_orbits_duration_from_horizon_data, package_modes_for_scri,
    unpack_scri_modes, load_lvcnr_hack, load_EMRI_waveform,
    load_EOB_EccTest_file)


# ------------------------------------------------------------ dispatching
@of("load_data:get_available_waveform_origins", "E07 E24")
def origins(return_dict=False):
    table = {"LAL": load_LAL_waveform,
             "SXSCatalog": load_sxs_catalogformat,
             "SXSCatalog_old": load_sxs_catalogformat_old,
             "LVCNR": load_lvcnr_waveform,
             "LVCNR_hack": load_lvcnr_hack,
             "EOB": load_EOB_waveform,
             "EMRI": load_EMRI_waveform}
    if return_dict:
        return table
    return list(table.keys())


@of("load_data:load_waveform", "E07 E24")
def dispatch(origin="LAL", **kwargs):
    known = get_available_waveform_origins(return_dict=True)
    if origin not in known:
        raise Exception
    return known[origin](**kwargs)


@of("load_data:get_load_waveform_docs", "E07")
def docs(origin):
    known = get_available_waveform_origins(return_dict=True)
    if origin not in known:
        raise Exception
    return help(known[origin])


@of("load_data:get_load_waveform_defaults", "E07")
def defaults(origin="LAL"):
    if origin == "LAL":
        return {"approximant": None, "q": None, "chi1": None, "chi2": None,
                "ecc": None, "mean_ano": None, "Momega0": None,
                "deltaTOverM": 0.1, "physicalUnits": False, "M": None,
                "D": None, "include_zero_ecc": False}
    nr = {"deltaTOverM": 0.1, "include_zero_ecc": False,
          "include_params_dict": False, "zero_ecc_approximant": "IMRPhenomT",
          "num_orbits_to_remove_as_junk": 2}
    if origin == "SXSCatalog" or origin == "SXSCatalog_old":
        nr["data_dir"] = None
        nr["metadata_path"] = None
        nr["mode_array"] = [(2, 2)]
        nr["extrap_order"] = 2
        if origin == "SXSCatalog":
            nr["keep_memory"] = False
        return nr
    if origin == "LVCNR":
        nr["filepath"] = None
        nr["Momega0"] = 0.0
        return nr
    if origin == "LVCNR_hack":
        nr["filepath"] = None
        return nr
    if origin == "EOB":
        return {"filepath": None, "include_zero_ecc": False,
                "filepath_zero_ecc": None}
    if origin == "EMRI":
        return {"filepath": None, "include_zero_ecc": False,
                "filepath_zero_ecc": None, "start_time": None,
                "end_time": None, "deltaT": None,
                "include_geodesic_ecc": False}
    raise Exception


@of("load_data:make_a_sub_dict", "E07")
def sub_dict(super_dict, sub_dict_keys):
    for kw in sub_dict_keys:
        if kw not in super_dict:
            raise Exception
    return {kw: super_dict[kw] for kw in sub_dict_keys}


# ------------------------------------------------------------ LAL waveforms
@of("load_data:load_LAL_waveform", "E24", raises="E07")
def lal_waveform(**kwargs):
    o = check_kwargs_and_set_defaults(
        kwargs, get_load_waveform_defaults("LAL"), "", "")
    raise_exception_if_none(
        o, ["approximant", "q", "chi1", "chi2", "ecc", "mean_ano",
            "Momega0"], "", "")
    data = load_LAL_waveform_using_hack(
        o["approximant"], o["q"], o["chi1"], o["chi2"], o["ecc"],
        o["mean_ano"], o["Momega0"], o["deltaTOverM"], o["physicalUnits"],
        o["M"], o["D"])
    if o["include_zero_ecc"]:
        # the same binary with (almost) no eccentricity, started early
        # enough
        z = dict(o)
        z["ecc"] = 1e-5 if o["approximant"] == "EccentricTD" else 0
        z["include_zero_ecc"] = False
        counterpart = load_waveform(**z)
        while counterpart["t"][0] > data["t"][0]:
            z["Momega0"] *= 0.9
            counterpart = load_waveform(**z)
        data["t_zeroecc"] = counterpart["t"]
        data["hlm_zeroecc"] = counterpart["hlm"]
    return data


@of("load_data:load_LAL_waveform_using_hack", "E24")
def lal_hack(approximant, q, chi1, chi2, ecc, mean_ano, Momega0, deltaTOverM,
             physicalUnits, M, D):
    t, h = generate_LAL_waveform(
        approximant, q, chi1, chi2, deltaTOverM, Momega0, eccentricity=ecc,
        meanPerAno=mean_ano, phi_ref=0, inclination=0,
        physicalUnits=physicalUnits, M=M, D=D)
    hlm = {(2, 2): h / lal.SpinWeightedSphericalHarmonic(0, 0, -2, 2, 2)}
    tpeak, _ = peak_time_via_quadratic_fit(t, amplitude_using_all_modes(hlm))
    return {"t": t - tpeak, "hlm": hlm}


@of("load_data:generate_LAL_waveform", "E24")
def lal_generate(approximant, q, chi1, chi2, deltaTOverM, Momega0,
                 inclination=0, phi_ref=0., longAscNodes=0, eccentricity=0,
                 meanPerAno=0, alignedSpin=True, lambda1=None, lambda2=None,
                 physicalUnits=False, M=None, D=None):
    chi1 = np.array(chi1)
    chi2 = np.array(chi2)
    if alignedSpin:
        if np.sum(np.sqrt(chi1[:2] ** 2)) > 1e-5 or \
                np.sum(np.sqrt(chi2[:2] ** 2)) > 1e-5:
            raise Exception
        if np.sum(np.sqrt(chi1[:2] ** 2)) != 0:
            chi1[:2] = 0
        if np.sum(np.sqrt(chi2[:2] ** 2)) != 0:
            chi2[:2] = 0
    if np.sqrt(np.sum(chi1 ** 2)) > 1 or np.sqrt(np.sum(chi2 ** 2)) > 1:
        raise Exception
    if len(chi1) != 3 or len(chi2) != 3:
        raise Exception
    if physicalUnits:
        if M is None or D is None:
            raise Exception
        distance = D * 1e6 * lal.PC_SI
    else:
        M = 10
        distance = 1e6 * lal.PC_SI
    MT = M * lal.MTSUN_SI
    f = Momega0 / np.pi / MT
    tides = None
    if lambda1 is not None or lambda2 is not None:
        tides = lal.CreateDict()
        lalsim.SimInspiralWaveformParamsInsertTidalLambda1(tides, lambda1)
        lalsim.SimInspiralWaveformParamsInsertTidalLambda2(tides, lambda2)
    hp, hc = lalsim.SimInspiralChooseTDWaveform(
        M * lal.MSUN_SI * q / (1 + q), M * lal.MSUN_SI / (1 + q),
        chi1[0], chi1[1], chi1[2], chi2[0], chi2[1], chi2[2],
        distance, inclination, phi_ref, longAscNodes, eccentricity,
        meanPerAno, deltaTOverM * MT, f, f, tides,
        lalsim.GetApproximantFromString(approximant))
    h = np.array(hp.data.data - 1j * hc.data.data)
    n = np.arange(len(h))
    if physicalUnits:
        return deltaTOverM * MT * n, h
    return deltaTOverM * n, h * distance / MT / lal.C_SI


@of("load_data:time_dimless_to_mks", "E24 E21")
def time_factor(M):
    return M * lal.MTSUN_SI


@of("load_data:amplitude_dimless_to_mks", "E24 E21")
def amplitude_factor(M, D):
    return lal.G_SI * M * lal.MSUN_SI / (
        lal.C_SI ** 2 * D * 1e6 * lal.PC_SI)


@of("load_data:get_defaults_for_nr", "E07")
def nr_defaults():
    return {"filepath": None, "data_dir": None, "deltaTOverM": 0.1,
            "Momega0": 0., "include_zero_ecc": False,
            "include_params_dict": False,
            "zero_ecc_approximant": "IMRPhenomT", "metadata_path": None,
            "num_orbits_to_remove_as_junk": 2, "mode_array": [(2, 2)],
            "extrap_order": 2, "keep_memory": False}


# ------------------------------------------------------------ NR waveforms
@of("load_data:load_lvcnr_waveform", "E24", raises="E07")
def lvcnr(**kwargs):
    o = check_kwargs_and_set_defaults(
        kwargs, get_load_waveform_defaults("LVCNR"), "", "")
    M = 10
    dt = o["deltaTOverM"] * time_dimless_to_mks(M)
    f_low = o["Momega0"] / np.pi / time_dimless_to_mks(M)
    f = h5py.File(o["filepath"], "r")
    params = lal.CreateDict()
    lalsim.SimInspiralWaveformParamsInsertNumRelData(params, o["filepath"])
    m1, m2 = f.attrs["mass1"], f.attrs["mass2"]
    if f_low == 0:
        f_low = f.attrs["f_lower_at_1MSUN"] / M
    spins = lalsim.SimInspiralNRWaveformGetSpinsFromHDF5File(
        0, M, o["filepath"])
    _, modes = lalsim.SimInspiralNRWaveformGetHlms(
        dt, m1 * M / (m1 + m2) * lal.MSUN_SI,
        m2 * M / (m1 + m2) * lal.MSUN_SI, 1e6 * lal.PC_SI, f_low, 0,
        spins[0], spins[1], spins[2], spins[3], spins[4], spins[5],
        o["filepath"],
        lalsim.SimInspiralWaveformParamsLookupModeArray(params))
    hlm = {}
    while modes is not None:
        hlm[(modes.l, modes.m)] = \
            modes.mode.data.data / amplitude_dimless_to_mks(M, 1)
        modes = modes.next
    t = np.arange(len(hlm[(2, 2)])) * dt / time_dimless_to_mks(M)
    tpeak, _ = peak_time_via_quadratic_fit(t, amplitude_using_all_modes(hlm))
    t = t - tpeak
    try:
        ecc = float(f.attrs["eccentricity"])
    except ValueError:
        ecc = None
    try:
        ano = float(f.attrs["mean_anomaly"])
    except ValueError:
        ano = None
    t, hlm = reomve_junk_from_nr_data(
        t, hlm, o["num_orbits_to_remove_as_junk"])
    out = {"t": t, "hlm": hlm}
    params = {"q": m1 / m2, "chi1": [spins[0], spins[1], spins[2]],
              "chi2": [spins[3], spins[4], spins[5]], "ecc": ecc,
              "mean_ano": ano}
    if o["include_zero_ecc"]:
        z = dict(params)
        z["approximant"] = o["zero_ecc_approximant"]
        z["mean_ano"] = 0.0
        out.update(get_zeroecc_dataDict_for_nr(out, z))
    if o["include_params_dict"]:
        out["params_dict"] = params
    return out


@of("load_data:load_sxs_catalogformat", "E24", raises="E07")
def sxs_new(**kwargs):
    o = check_kwargs_and_set_defaults(
        kwargs, get_load_waveform_defaults("SXSCatalog"), "", "")
    horizons = check_sxs_data_dir("SXSCatalog", **o)
    t, hlm = get_modes_dict_from_sxs_catalog_format(**o)
    return make_return_dict_for_sxs_catalog_format(t, hlm, horizons, **o)


@of("load_data:load_sxs_catalogformat_old", "E24", raises="E07")
def sxs_old(**kwargs):
    o = check_kwargs_and_set_defaults(
        kwargs, get_load_waveform_defaults("SXSCatalog_old"), "", "")
    horizons = check_sxs_data_dir("SXSCatalog_old", **o)
    t, hlm = get_modes_dict_from_sxs_catalog_old_format(**o)
    return make_return_dict_for_sxs_catalog_format(t, hlm, horizons, **o)


@of("load_data:make_return_dict_for_sxs_catalog_format", "E24")
def sxs_result(t, modes_dict, horizon_file_exits, **kwargs):
    if horizon_file_exits:
        t, hlm = remove_junk_from_sxs_catalogformat_using_horizons_data(
            t, modes_dict, kwargs["num_orbits_to_remove_as_junk"],
            os.path.join(kwargs["data_dir"], "Horizons.h5"))
    else:
        t, hlm = reomve_junk_from_nr_data(
            t, modes_dict, kwargs["num_orbits_to_remove_as_junk"])
    tpeak, _ = peak_time_via_quadratic_fit(t, amplitude_using_all_modes(hlm))
    out = {"t": t - tpeak, "hlm": hlm}
    if any([kwargs["include_zero_ecc"], kwargs["include_params_dict"],
            not kwargs.get("keep_memory", True)]):
        name = os.path.join(kwargs["data_dir"], "metadata.txt")
        if not os.path.exists(name):
            name = os.path.join(kwargs["data_dir"], "metadata.json")
        params = get_params_dict_from_sxs_metadata(name)
    if kwargs["include_zero_ecc"]:
        z = dict(params)
        z.pop("t_relax", None)
        z["approximant"] = kwargs["zero_ecc_approximant"]
        z["mean_ano"] = 0.0
        counterpart = get_zeroecc_dataDict_for_nr(out, z)
        out["t_zeroecc"] = counterpart["t_zeroecc"]
        out["hlm_zeroecc"] = counterpart["hlm_zeroecc"]
    if kwargs["include_params_dict"]:
        out["params_dict"] = params
    return out


@of("load_data:get_modes_dict_from_sxs_catalog_old_format", "E24")
def sxs_old_modes(**kwargs):
    modes_dict = {}
    data = h5py.File(os.path.join(
        kwargs["data_dir"], "rhOverM_Asymptotic_GeometricUnits_CoM.h5"), "r")
    group = data[f"Extrapolated_N{kwargs['extrap_order']}.dir"]
    for i, mode in enumerate(kwargs["mode_array"]):
        ell, m = mode
        d = group[f"Y_l{ell}_m{m}.dat"]
        if i == 0:
            # all modes are resampled onto the same times
            given = d[:, 0]
            t = np.arange(given[0], given[-1], kwargs["deltaTOverM"])
        h = d[:, 1] + 1j * d[:, 2]
        modes_dict[(ell, m)] = interpolate(t, given, np.real(h)) \
            + 1j * interpolate(t, given, np.imag(h))
    return t, modes_dict


@of("load_data:get_modes_dict_from_sxs_catalog_format", "E24")
def sxs_new_modes(**kwargs):
    w = sxs.load(os.path.join(kwargs["data_dir"],
                              f"Strain_N{kwargs['extrap_order']}"))
    data = w.data
    if not kwargs["keep_memory"]:
        params = get_params_dict_from_sxs_metadata(
            os.path.join(kwargs["data_dir"], "metadata.json"))
        memory = sxs.waveforms.memory.J_E(
            w, integration_start_time=params["t_relax"])
        data = w.data - memory.data[:, sf.LM_index(2, -2, memory.ell_min):]
    t = np.arange(w.t[0], w.t[-1], kwargs["deltaTOverM"])
    out = {}
    for ell, m in kwargs["mode_array"]:
        h = data[:, w.index(ell, m)]
        out[(ell, m)] = interpolate(t, w.t, np.real(h)) \
            + 1j * interpolate(t, w.t, np.imag(h))
    return t, out


@of("load_data:get_zeroecc_dataDict_for_nr", "E24")
def counterpart_for_nr(nr_dataDict, params_dict):
    z = dict(params_dict)
    z["ecc"] = 0.0
    z["include_zero_ecc"] = False
    tpeak, _ = peak_time_via_quadratic_fit(
        nr_dataDict["t"], amplitude_using_all_modes(nr_dataDict["hlm"]))
    M = 10
    q = z["q"]
    f0 = lalsim.SimIMRSEOBNRv4ROMFrequencyOfTime(
        (tpeak - nr_dataDict["t"][0]) * time_dimless_to_mks(M),
        q * M / (1 + q) * lal.MSUN_SI, M / (1 + q) * lal.MSUN_SI,
        z["chi1"][2], z["chi2"][2])
    z["Momega0"] = f0 * time_dimless_to_mks(M) * np.pi
    w = load_waveform(origin="LAL", **z)
    t = w["t"]
    # never start later than the waveform
    while t[0] > nr_dataDict["t"][0]:
        z["Momega0"] = z["Momega0"] / 2
        w = load_waveform(origin="LAL", **z)
        t = w["t"]
    i = max(np.argmin(np.abs(t - nr_dataDict["t"][0])) - 10, 0)
    return {"t_zeroecc": t[i:],
            "hlm_zeroecc": {k: w["hlm"][k][i:] for k in w["hlm"].keys()}}


@of("load_data:reomve_junk_from_nr_data", "E24")
def remove_junk(t, modes_dict, num_orbits_to_remove_as_junk):
    phase = -np.unwrap(np.angle(modes_dict[(2, 2)]))
    i = np.argmin(np.abs(
        phase - phase[0] - 4 * np.pi * num_orbits_to_remove_as_junk))
    return t[i:], {k: modes_dict[k][i:] for k in modes_dict}


@of("load_data:remove_junk_from_sxs_catalogformat_using_horizons_data",
    "E24")
def remove_junk_horizons(t, modes_dict, num_orbits_to_remove_as_junk,
                         horizon_filepath):
    d = get_num_orbits_duration_from_horizon_data(
        horizon_filepath, num_orbits_to_remove_as_junk)
    i = np.argmin(np.abs(t - d))
    return t[i:], {k: modes_dict[k][i:] for k in modes_dict}


@of("load_data:get_num_orbits_duration_from_horizon_data", "E24")
def orbits_duration(horizon_filepath, num_orbits):
    f = h5py.File(horizon_filepath, "r")
    a = f["AhA.dir"]["CoordCenterInertial.dat"]
    b = f["AhB.dir"]["CoordCenterInertial.dat"]
    t = a[:, 0]
    d = a[:, 1:] - b[:, 1:]
    phase = np.unwrap(np.arctan2(d[:, 1], d[:, 0]))
    i = np.argmin(np.abs(phase - phase[0] - 2 * np.pi * num_orbits))
    return t[i] - t[0]


@of("load_data:check_sxs_data_dir", "E24")
def check_dir(origin, **kwargs):
    if kwargs["data_dir"] is None:
        raise Exception
    if not os.path.exists(kwargs["data_dir"]):
        raise FileNotFoundError
    meta = any([kwargs["include_zero_ecc"], kwargs["include_params_dict"],
                not kwargs.get("keep_memory", True)])
    files = {"SXSCatalog": [f"Strain_N{kwargs['extrap_order']}.h5",
                            f"Strain_N{kwargs['extrap_order']}.json"],
             "SXSCatalog_old": [
                 "rhOverM_Asymptotic_GeometricUnits_CoM.h5"]}
    if meta:
        name = "metadata.json" if origin == "SXSCatalog" else "metadata.txt"
        for k in files:
            files[k] = np.append(files[k], [name])
    for name in files[origin]:
        if not os.path.exists(os.path.join(kwargs["data_dir"], name)):
            raise FileNotFoundError
    return os.path.exists(os.path.join(kwargs["data_dir"], "Horizons.h5"))


@of("load_data:get_params_dict_from_sxs_metadata", "E24")
def sxs_params(metadata_path):
    if "metadata.txt" in metadata_path:
        f = open(metadata_path, "r")
        lines = f.readlines()
        f.close()
        for line in lines:
            if "reference-dimensionless-spin1" in line:
                chi1 = [float(x.strip())
                        for x in line.split("=")[-1].split(",")]
            if "reference-dimensionless-spin2" in line:
                chi2 = [float(x.strip())
                        for x in line.split("=")[-1].split(",")]
            if "reference-mass1" in line:
                m1 = float(line.split("=")[-1].strip())
            if "reference-mass2" in line:
                m2 = float(line.split("=")[-1].strip())
            if "relaxation-time" in line:
                t_relax = float(line.split("=")[-1].strip())
    if "metadata.json" in metadata_path:
        f = open(metadata_path, "r")
        data = json.load(f)
        f.close()
        chi1 = data["reference_dimensionless_spin1"]
        chi2 = data["reference_dimensionless_spin2"]
        m1 = data["reference_mass1"]
        m2 = data["reference_mass2"]
        t_relax = data["relaxation_time"]
    q = m1 / m2
    # q < 1 is only tolerated when it is 1 within the accuracy of NR
    if q < 1:
        if 1 - q < 0.0005:
            q = 1.0
        else:
            raise Exception
    return {"q": q, "chi1": chi1, "chi2": chi2, "t_relax": t_relax}


# ---------------------------------------------------- coprecessing frame
@of("load_data:package_modes_for_scri", "E09")
def package(modes_dict, ell_min, ell_max):
    out = np.zeros((modes_dict[(2, 2)].shape[0],
                    (ell_max + 3) * (ell_max - 1)), dtype=np.complex128)
    i = 0
    for ell in range(ell_min, ell_max + 1):
        for m in range(-ell, ell + 1):
            if (ell, m) not in modes_dict.keys():
                raise Exception
            out[:, i] = modes_dict[(ell, m)]
            i += 1
    return out


@of("load_data:unpack_scri_modes", "E09")
def unpack(w):
    return {(k[0], k[1]): 1 * w.data[:, w.index(k[0], k[1])] for k in w.LM}


@of("load_data:get_coprecessing_data_dict", "E09")
def coprecessing(data_dict, ell_min=2, ell_max=2, tag=""):
    w = scri.WaveformModes(
        dataType=scri.h, t=data_dict["t" + tag],
        data=package_modes_for_scri(data_dict["hlm" + tag], ell_min=ell_min,
                                    ell_max=ell_max),
        ell_min=ell_min, ell_max=ell_max, frameType=scri.Inertial,
        r_is_scaled_out=True, m_is_scaled_out=True)
    out = copy.deepcopy(data_dict)
    out["hlm" + tag] = unpack_scri_modes(
        copy.deepcopy(w).to_coprecessing_frame())
    return out


# ------------------------------------------------------------ other files
@of("load_data:load_EOB_EccTest_file", "E24")
def eob_file(**kwargs):
    f = h5py.File(kwargs["filepath"], "r")
    t = f["t"][:]
    hlm = {(2, 2): f["(2, 2)"][:]}
    tpeak, _ = peak_time_via_quadratic_fit(t, amplitude_using_all_modes(hlm))
    out = {"t": t - tpeak, "hlm": hlm}
    if "include_zero_ecc" in kwargs and kwargs["include_zero_ecc"]:
        if "filepath_zero_ecc" not in kwargs:
            raise Exception
        z = dict(kwargs)
        z["filepath"] = kwargs["filepath_zero_ecc"]
        z["include_zero_ecc"] = False
        w = load_EOB_EccTest_file(**z)
        out["t_zeroecc"] = w["t"]
        out["hlm_zeroecc"] = w["hlm"]
    return out


@of("load_data:load_EOB_waveform", "E24", raises="E07")
def eob(**kwargs):
    o = check_kwargs_and_set_defaults(
        kwargs, get_load_waveform_defaults("EOB"), "", "")
    if o["filepath"] is None:
        raise Exception
    if o["include_zero_ecc"] and o["filepath_zero_ecc"] is None:
        raise Exception
    if "EccTest" not in o["filepath"]:
        raise Exception
    return load_EOB_EccTest_file(**o)


@of("load_data:load_lvcnr_hack", "E24", raises="E07")
def lvcnr_hack(**kwargs):
    o = check_kwargs_and_set_defaults(
        kwargs, get_load_waveform_defaults("LVCNR_hack"), "", "")
    f = h5py.File(o["filepath"])
    ta, a = f["amp_l2_m2"]["X"][:], f["amp_l2_m2"]["Y"][:]
    tp, p = f["phase_l2_m2"]["X"][:], f["phase_l2_m2"]["Y"][:]
    # common times, inside the span of both
    t = np.arange(max(ta[0], tp[0]), min(ta[-1], tp[-1]), o["deltaTOverM"])
    h = interpolate(t, ta, a) * np.exp(1j * interpolate(t, tp, p))
    t, hlm = reomve_junk_from_nr_data(
        t, {(2, 2): h}, o["num_orbits_to_remove_as_junk"])
    out = {"t": t, "hlm": hlm}
    params = {"q": f.attrs["mass1"] / f.attrs["mass2"],
              "chi1": [f.attrs["spin1x"], f.attrs["spin1y"],
                       f.attrs["spin1z"]],
              "chi2": [f.attrs["spin2x"], f.attrs["spin2y"],
                       f.attrs["spin2z"]],
              "ecc": f.attrs["eccentricity"],
              "mean_ano": f.attrs["mean_anomaly"]}
    if o["include_params_dict"]:
        out["params_dict"] = params
    if o["include_zero_ecc"]:
        z = dict(params)
        z["approximant"] = o["zero_ecc_approximant"]
        z["mean_ano"] = 0.0
        out.update(get_zeroecc_dataDict_for_nr(out, z))
    return out


@of("load_data:load_EMRI_waveform", "E24", raises="E07")
def emri(**kwargs):
    o = check_kwargs_and_set_defaults(
        kwargs, get_load_waveform_defaults("EMRI"), "", "")
    if o["filepath"] is None:
        raise KeyError
    d = h5py.File(o["filepath"], "r")["Dataset1"]
    t = d[:, 0]
    h = d[:, 1] + 1j * d[:, 2]
    tpeak, _ = peak_time_via_quadratic_fit(
        t, amplitude_using_all_modes({(2, 2): h}))
    t = t - tpeak
    start, end = 0, -1
    if o["start_time"] is not None:
        start = np.argmin(np.abs(t - o["start_time"]))
    if o["end_time"] is not None:
        end = np.argmin(np.abs(t - o["end_time"]))
    t, h = t[start:end], h[start:end]
    out = {"t": t, "hlm": {(2, 2): h}}
    if o["deltaT"] is not None:
        s = np.arange(t[0], t[-1], o["deltaT"])
        s = s[np.logical_and(s >= t[0], s <= t[-1])]
        out["t"] = s
        out["hlm"] = {(2, 2): interpolate(s, t, np.abs(h)) * np.exp(
            1j * interpolate(s, t, np.unwrap(np.angle(h))))}
    if o["include_zero_ecc"]:
        z = o["filepath_zero_ecc"]
        if z is None:
            z = o["filepath"][:o["filepath"].find("e0")] + "e0.000.h5"
        w = load_EMRI_waveform(filepath=z, include_zero_ecc=False)
        out["t_zeroecc"] = w["t"]
        out["hlm_zeroecc"] = {(2, 2): w["hlm"][(2, 2)] / np.sqrt(2 * np.pi)}
    if o["include_geodesic_ecc"]:
        e = h5py.File(o["filepath"][:-3] + "_ecc.h5", "r")["Dataset1"]
        e = e[:, 1][start:end]
        if o["deltaT"] is not None:
            e = interpolate(s, t, np.abs(e))
        out["e_geodesic"] = e
    return out
