"""Reference definitions for gw_eccentricity.postprocess."""
import argparse
import importlib
import importlib.util
import json
import os
from dataclasses import fields
from pathlib import Path
import bilby
import pandas as pd
from joblib import Parallel, delayed
from mpi4py import MPI
from tqdm import tqdm
from gw_eccentricity.gw_eccentricity import measure_eccentricity
from gw_eccentricity.postprocess.core import (
    PostProcessResult, PostProcessResults, FrefBoundsResult,
    FrefBoundsResults, filter_posterior_columns, get_data_dict,
    get_fref_bounds_for_sample, postprocess_sample)
from gw_eccentricity.postprocess.postprocess_cli import (
    parse_int_or_none, parse_samples, parse_json_dict, load_callable,
    run_postprocess, run_postprocess_batch, extract_batch_data, write_df,
    load_checkpoint, save_checkpoint, save_final, get_bilby_posterior,
    _Progress, master, worker, build_config_from_cli, comm, rank, size,
    MASTER, _STOP)


# ------------------------------------------------------------------- core
@of("postprocess.core:PostProcessResults.to_dataframe", "E28")
def table(self):
    return pd.DataFrame([r.__dict__ for r in self.results],
                        columns=[f.name for f in fields(PostProcessResult)])


@of("postprocess.core:PostProcessResults.success_only", "E28")
def successes(self):
    return [r for r in self.results if r.status == "success"]


@of("postprocess.core:PostProcessResults.get_summary", "E28")
def summary(self):
    good = self.success_only()
    n = len(self.results)
    return {"total_samples": n,
            "success_percentage": 100 * len(good) / n if n > 0 else 0,
            "egw": [r.egw for r in good], "lgw": [r.lgw for r in good]}


@of("postprocess.core:FrefBoundsResults.to_dataframe", "E28")
def bounds_table(self):
    return pd.DataFrame([r.__dict__ for r in self.results],
                        columns=[f.name for f in fields(FrefBoundsResult)])


@of("postprocess.core:FrefBoundsResults.success_only", "E28")
def bounds_successes(self):
    return [r for r in self.results if r.status == "success"]


@of("postprocess.core:FrefBoundsResults.get_summary", "E28")
def bounds_summary(self):
    good = self.success_only()
    n = len(self.results)
    return {"total_samples": n,
            "success_percentage": 100 * len(good) / n if n > 0 else 0,
            "fref_min": [r.fref_min for r in good],
            "fref_max": [r.fref_max for r in good]}


@of("postprocess.core:FrefBoundsResults.get_minmax_fref", "E28")
def common_range(self):
    s = self.get_summary()
    if s["success_percentage"] == 0:
        raise Exception
    # the intersection of the individual ranges
    return max(s["fref_min"]), min(s["fref_max"])


@of("postprocess.core:filter_posterior_columns", "E25 E08")
def columns(posterior, parameter_columns):
    if [k for k in parameter_columns if k not in posterior.columns]:
        raise ValueError
    return posterior[parameter_columns].copy()


@of("postprocess.core:get_data_dict", "E25")
def data_dict(params, data_dict_generator, extra_kwargs=None):
    d = data_dict_generator(params, {} if extra_kwargs is None
                            else extra_kwargs)
    if not isinstance(d, dict):
        raise TypeError
    return d


@of("postprocess.core:get_fref_bounds_for_sample", "E25")
def bounds_of_sample(sample_index, params, data_dict_generator,
                     data_dict_generator_extra_kwargs=None,
                     method="Amplitude", gw_eccentricity_kwargs=None):
    kw = {} if gw_eccentricity_kwargs is None else gw_eccentricity_kwargs
    try:
        d = get_data_dict(params, data_dict_generator,
                          data_dict_generator_extra_kwargs)
        r = measure_eccentricity(dataDict=d, tref_in=d["t"], method=method,
                                 **kw)
        b = r["gwecc_object"].get_fref_bounds()
        return FrefBoundsResult(sample_index, "success", b[0], b[1])
    except Exception as e:
        return FrefBoundsResult(sample_index, "fail", None, None, str(e))


@of("postprocess.core:postprocess_sample", "E25")
def measure_sample(sample_index, params, tref, fref, data_dict_generator,
                   data_dict_generator_extra_kwargs=None, method="Amplitude",
                   gw_eccentricity_kwargs=None):
    if (tref is None) == (fref is None):
        raise ValueError
    try:
        d = get_data_dict(params, data_dict_generator,
                          data_dict_generator_extra_kwargs)
        r = measure_eccentricity(dataDict=d, tref_in=tref, fref_in=fref,
                                 method=method,
                                 **(gw_eccentricity_kwargs or {}))
        return PostProcessResult(sample_index, "success", r["eccentricity"],
                                 r["mean_anomaly"])
    except Exception as e:
        return PostProcessResult(sample_index, "fail", None, None, str(e))


# ------------------------------------------------------------ PostProcess
@of("postprocess.postprocess:PostProcess.__init__", "E25")
def post_init(self, posterior_file, data_dict_generator,
              parameter_columns=None, data_dict_generator_extra_kwargs=None,
              injection_file=None):
    self.posterior_file = posterior_file
    self.parameter_columns = parameter_columns
    self.posterior = self.get_posterior(parameter_columns=parameter_columns)
    if not isinstance(self.posterior, pd.DataFrame):
        raise TypeError
    self.postprocess_result = None
    self.fref_bounds = None
    if not callable(data_dict_generator):
        raise TypeError
    self.data_dict_generator = data_dict_generator
    self.data_dict_generator_extra_kwargs = (
        data_dict_generator_extra_kwargs
        if data_dict_generator_extra_kwargs is not None else {})
    self.injection_file = injection_file


@of("postprocess.postprocess:PostProcess.get_injection_data_dict", "E25")
def injection_data(self):
    if self.injection_file is None:
        raise ValueError
    return get_data_dict(self.get_injection_params(),
                         self.data_dict_generator,
                         self.data_dict_generator_extra_kwargs)


@of("postprocess.postprocess:PostProcess.get_injection_egw_and_lgw", "E25",
    flags={"debug": False})
def injection_values(self, tref=None, fref=None, method="Amplitude",
                     gw_eccentricity_kwargs=None, debug=False):
    if (tref is None) == (fref is None):
        raise ValueError
    kw = {} if gw_eccentricity_kwargs is None else gw_eccentricity_kwargs
    r = measure_eccentricity(tref_in=tref, fref_in=fref, method=method,
                             dataDict=self.get_injection_data_dict(), **kw)
    return r["eccentricity"], r["mean_anomaly"]


@of("postprocess.postprocess:PostProcess.postprocess", "E25")
def post_run(self, tref=None, fref=None, samples=None, method="Amplitude",
             gw_eccentricity_kwargs=None, n_jobs=-1):
    if (tref is None) == (fref is None):
        raise ValueError
    samples = list(self.posterior.index) if samples is None \
        else list(samples)
    rows = self.posterior.loc[samples].to_dict(orient="records")
    # the k-th task gets the k-th label and the k-th row, in this order
    out = Parallel(n_jobs=n_jobs, pre_dispatch="2*n_jobs")(
        delayed(postprocess_sample)(
            s, p, tref, fref, self.data_dict_generator,
            self.data_dict_generator_extra_kwargs, method,
            gw_eccentricity_kwargs)
        for s, p in tqdm(zip(samples, rows), desc="Postprocessing samples"))
    self.postprocess_result = PostProcessResults(out)
    return self.postprocess_result


@of("postprocess.postprocess:PostProcess.get_fref_bounds", "E25")
def post_bounds(self, samples=None, method="Amplitude",
                gw_eccentricity_kwargs=None, n_jobs=-1):
    samples = list(self.posterior.index) if samples is None \
        else list(samples)
    rows = self.posterior.loc[samples].to_dict(orient="records")
    out = Parallel(n_jobs=n_jobs, pre_dispatch="2*n_jobs")(
        delayed(get_fref_bounds_for_sample)(
            s, p, self.data_dict_generator,
            self.data_dict_generator_extra_kwargs, method,
            gw_eccentricity_kwargs)
        for s, p in tqdm(zip(samples, rows), desc="Getting fref bounds"))
    return FrefBoundsResults(results=out)


@of("postprocess.postprocess:PostProcess.postprocess_summary", "E28")
def post_summary(self):
    if self.postprocess_result is None:
        raise ValueError
    return self.postprocess_result.get_summary()


@of("postprocess.postprocess:PostProcess.get_gw_eccentricity_posterior",
    "E28")
def post_values(self):
    if self.postprocess_result is None:
        raise ValueError
    s = self.postprocess_summary()
    return {"egw": s["egw"], "lgw": s["lgw"]}


@of("postprocess.postprocess_for_bilby:PostProcessForBilby.get_posterior",
    "E25")
def bilby_posterior(self, parameter_columns=None):
    if self.posterior_result is None:
        try:
            self.posterior_result = bilby.result.read_in_result(
                filename=self.posterior_file)
        except FileNotFoundError:
            raise FileNotFoundError
    posterior = self.posterior_result.posterior
    if parameter_columns is not None:
        return filter_posterior_columns(posterior, parameter_columns)
    return posterior


@of("postprocess.postprocess_for_bilby:"
    "PostProcessForBilby.get_injection_params", "E25")
def bilby_injection(self):
    if self.injection_file is None:
        raise ValueError
    try:
        row = pd.read_csv(self.injection_file, sep=" ").to_dict(
            orient="records")[0]
    except FileNotFoundError:
        raise FileNotFoundError
    if "minimum_frequency" not in row:
        row["minimum_frequency"] = self.posterior.iloc[0][
            "minimum_frequency"]
    return row


# ----------------------------------------------------------- command line
@of("postprocess.postprocess_cli:parse_int_or_none", "E29")
def int_or_none(value):
    if value is None or (isinstance(value, str)
                         and value.lower() == "none"):
        return None
    return int(value)


@of("postprocess.postprocess_cli:parse_samples", "E29")
def sample_selection(value):
    if value is None:
        return None
    text = str(value).strip().lower()
    if text == "all" or text == "none":
        return None
    if ":" in text:
        parts = text.split(":")
        if len(parts) != 2 and len(parts) != 3:
            raise ValueError
        start = int(parts[0]) if parts[0] else 0
        stop = int(parts[1])
        step = int(parts[2]) if len(parts) == 3 and parts[2] else 1
        return list(range(start, stop, step))
    if "," in text:
        return [int(x.strip()) for x in text.split(",") if x.strip()]
    return [int(text)]


@of("postprocess.postprocess_cli:parse_json_dict", "E29")
def json_options(value, arg_name):
    if not value:
        return {}
    try:
        parsed = json.loads(value)
    except json.JSONDecodeError:
        raise ValueError
    if not isinstance(parsed, dict):
        raise ValueError
    return parsed


@of("postprocess.postprocess_cli:load_callable", "E29")
def callable_reference(import_path, arg_name):
    if ":" not in import_path:
        raise ValueError
    where, name = import_path.rsplit(":", 1)
    if where.endswith(".py") or "/" in where:
        path = Path(where).expanduser().resolve()
        if not path.exists():
            raise ValueError
        spec = importlib.util.spec_from_file_location(
            f"_dyn_{path.stem}", str(path))
        if spec is None or spec.loader is None:
            raise ValueError
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
    else:
        module = importlib.import_module(where)
    target = getattr(module, name)
    if not callable(target):
        raise ValueError
    return target


@of("postprocess.postprocess_cli:build_config_from_cli", "E29",
    calls={"add_argument": "E29"}, unordered=("add_argument",))
def configuration():
    parser = argparse.ArgumentParser()
    parser.add_argument("--posterior-type", default="bilby",
                        choices=["bilby"])
    parser.add_argument("--posterior-path", required=True)
    parser.add_argument("--parameter-columns", default=None)
    parser.add_argument("--output-dir", default=".")
    parser.add_argument("--output-format", default="csv",
                        choices=["json", "csv", "parquet"])
    parser.add_argument("--save-every", type=parse_int_or_none, default=None)
    parser.add_argument("--samples", default="all")
    parser.add_argument("--fref", type=float, default=None)
    parser.add_argument("--tref", type=float, default=None)
    parser.add_argument("--method", default="AmplitudeFits")
    parser.add_argument("--batch-size", type=int, default=100)
    parser.add_argument("--data-dict-generator", required=True)
    parser.add_argument("--data-dict-generator-extra-kwargs", default="{}")
    parser.add_argument("--gw-eccentricity-kwargs", default="{}")
    a = parser.parse_args()
    if (a.tref is None) == (a.fref is None):
        parser.error("")
    if a.batch_size < 1:
        parser.error("")
    return {
        "posterior_type": a.posterior_type,
        "posterior_path": a.posterior_path,
        "parameter_columns": [c.strip() for c in
                              a.parameter_columns.split(",")]
        if a.parameter_columns else None,
        "output_dir": a.output_dir,
        "output_format": a.output_format,
        "save_every": a.save_every,
        "samples": parse_samples(a.samples),
        "fref": a.fref,
        "tref": a.tref,
        "method": a.method,
        "batch_size": a.batch_size,
        "data_dict_generator": load_callable(a.data_dict_generator, ""),
        "data_dict_generator_extra_kwargs": parse_json_dict(
            a.data_dict_generator_extra_kwargs, ""),
        "gw_eccentricity_kwargs": parse_json_dict(
            a.gw_eccentricity_kwargs, "")}


# ------------------------------------------------------------- processing
@of("postprocess.postprocess_cli:run_postprocess", "E25 E26 E29")
def run_one(sample_index, params, config):
    return postprocess_sample(
        sample_index, params, config["tref"], config["fref"],
        config["data_dict_generator"],
        config["data_dict_generator_extra_kwargs"], config["method"],
        config["gw_eccentricity_kwargs"])


@of("postprocess.postprocess_cli:run_postprocess_batch", "E25 E26")
def run_batch(sample_indices, params_list, config):
    return [run_postprocess(s, p, config)
            for s, p in zip(sample_indices, params_list)]


@of("postprocess.postprocess_cli:extract_batch_data", "E25 E26")
def batch_data(to_process_batch):
    return [x[1] for x in to_process_batch], [x[2] for x in to_process_batch]


@of("postprocess.postprocess_cli:write_df", "E28", calls={
    "to_json": "E28", "to_csv": "E28", "to_parquet": "E28"})
def write_table(df, path, fmt):
    if fmt == "json":
        df.to_json(path)
    elif fmt == "csv":
        df.to_csv(path, index=False)
    elif fmt == "parquet":
        df.to_parquet(path)
    else:
        raise ValueError


@of("postprocess.postprocess_cli:load_checkpoint", "E27")
def read_checkpoint(checkpoint_path):
    if not Path(checkpoint_path).exists():
        return None
    return pd.read_parquet(checkpoint_path)


@of("postprocess.postprocess_cli:save_checkpoint", "E27", calls={
    "to_parquet": "E27", "os.replace": "E27"})
def write_checkpoint(results, config):
    df = PostProcessResults([r for r in results if r is not None]
                            ).to_dataframe()
    path = f"{config['output_dir']}/checkpoint.parquet"
    # written beside and moved into place as a whole
    df.to_parquet(f"{path}.tmp")
    os.replace(f"{path}.tmp", path)


@of("postprocess.postprocess_cli:save_final", "E28", calls={
    "fn:write_df": "E28 E25"})
def write_final(results, row_indices, selected_posterior, config):
    df = PostProcessResults([r for r in results if r is not None]
                            ).to_dataframe()
    df["sample_index"] = df["sample_index"].astype(int)
    rows = selected_posterior.copy()
    rows["sample_index"] = pd.array(row_indices, dtype=int)
    rows = rows.merge(df, on="sample_index", how="left")
    write_df(rows, f"{config['output_dir']}/eccentricity_results."
             f"{config['output_format']}", config["output_format"])


@of("postprocess.postprocess_cli:get_bilby_posterior", "E25")
def posterior_from_file(posterior_path, parameter_columns=None):
    p = bilby.result.read_in_result(posterior_path).posterior
    if parameter_columns is not None:
        p = p[parameter_columns]
    return p


@of("postprocess.postprocess_cli:worker", "E26", calls={
    "send": "E26", "recv": "E26", "fn:run_postprocess_batch": "E26"})
def worker_loop(config):
    while True:
        msg = comm.recv(source=MASTER)
        if msg == _STOP:
            break
        labels, params = msg
        comm.send((rank, labels, run_postprocess_batch(
            labels, params, config)), dest=MASTER)


@of("postprocess.postprocess_cli:master", "E26 E27 E28", calls={
    "send": "E26", "recv": "E26", "fn:run_postprocess": "E26 E25",
    "fn:save_checkpoint": "E27", "fn:save_final": "E28 E25",
    "mkdir": "E27"})
def coordinator(posterior, config):
    Path(config["output_dir"]).mkdir(parents=True, exist_ok=True)
    done = load_checkpoint(f"{config['output_dir']}/checkpoint.parquet")
    if done is not None:
        if {"sample_index", "status"}.difference(done.columns):
            done = None
    samples = config["samples"]
    if samples is None:
        samples = list(posterior.index)
    rows = posterior.loc[samples]
    labels = list(rows.index)
    params = rows.to_dict(orient="records")
    n = len(params)
    finished = set()
    if done is not None:
        finished = set(done.loc[:, "sample_index"].dropna().unique())
    todo = [(i, s, p) for i, (s, p) in enumerate(zip(labels, params))
            if s not in finished]
    results = [None] * n
    # finished samples outside the selection stay in the checkpoint
    others = []
    position = {s: i for i, s in enumerate(labels)} \
        if done is not None or size > 1 else None
    if done is not None:
        for row in done.to_dict("records"):
            s = row["sample_index"]
            if pd.isna(s):
                continue
            r = PostProcessResult(
                sample_index=int(s), status=row["status"],
                egw=row.get("egw"), lgw=row.get("lgw"),
                error_message=row.get("error_message"))
            if s in position:
                results[position[s]] = r
            else:
                others.append(r)
    if len(todo) == 0:
        if size > 1:
            for w in range(1, size):
                comm.send(_STOP, dest=w)
        save_final(results, labels, rows, config)
        return
    every = config.get("save_every")
    since = 0
    if size == 1:
        for i, s, p in todo:
            results[i] = run_postprocess(s, p, config)
            since += 1
            if every and since >= every:
                save_checkpoint(others + results, config)
                since = 0
        if every and since > 0:
            save_checkpoint(others + results, config)
        save_final(results, labels, rows, config)
        return
    step = config["batch_size"]
    k = 0
    for w in range(1, size):
        if k < len(todo):
            end = min(k + step, len(todo))
            comm.send(extract_batch_data(todo[k:end]), dest=w)
            k = end
        else:
            comm.send(_STOP, dest=w)
    received = 0
    while received < len(todo):
        w, names, out = comm.recv(source=MPI.ANY_SOURCE)
        for s, r in zip(names, out):
            results[position[s]] = r
            since += 1
            received += 1
            if every and since >= every:
                save_checkpoint(others + results, config)
                since = 0
        if k < len(todo):
            end = min(k + step, len(todo))
            comm.send(extract_batch_data(todo[k:end]), dest=w)
            k = end
        else:
            comm.send(_STOP, dest=w)
    if every and since > 0:
        save_checkpoint(others + results, config)
    save_final(results, labels, rows, config)


@of("postprocess.postprocess_cli:main", "E26 E29", calls={
    "fn:master": "E26 E25", "fn:worker": "E26 E25"})
def entry():
    config = build_config_from_cli()
    if rank != MASTER:
        worker(config)
    elif config["posterior_type"] != "bilby":
        raise ValueError
    else:
        master(get_bilby_posterior(config["posterior_path"],
                                   config["parameter_columns"]), config)


@of("postprocess.postprocess:PostProcess.get_posterior", "E25")
def no_posterior(self, parameter_columns=None):
    raise NotImplementedError


@of("postprocess.postprocess:PostProcess.get_injection_params", "E25")
def no_injection(self):
    raise NotImplementedError
