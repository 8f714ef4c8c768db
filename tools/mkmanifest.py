"""Writes /verif/MANIFEST.json."""
import json
import pathlib
import sys
sys.path.insert(0, str(pathlib.Path(__file__).parent.parent))
from gwsa.model import Repo
from gwsa.spec import load_specs
from gwsa.report import rule_modules

VF = "value-flow analysis (GVN over gated SSA) against a reference definition"
EXTRA = {
    "E08": "ownership / alias-root analysis of every in-place operation",
    "E10": "moment conditions of the stencil read off the store terms",
    "E15": "guard analysis of every diagnostic reachable from a measurement",
    "E16": "effect analysis of diagnostics-only code",
    "E20": "affine (time-origin) equivariance inference",
    "E21": "dimension inference",
    "E26": "send/receive pairing on all paths of the coordinator",
    "E27": "temp-file-then-rename order on all paths",
    "E37": "effect analysis of state shared between calls",
    "E32": "name, attribute and arity resolution",
}
NA = {
    "E33": "agreement of six numerical extrema finders within an accuracy is a statement about runtime values of floating point data; no static argument in reach bounds it (the structural parts - each method searches its own data with the same rules - are claimed as E13/E14)",
    "E34": "the size of the difference between a segment and the full waveform is a numerical error bound depending on the waveform; the structural part (which samples the segment contains) is claimed as E19",
    "E35": "smoothness and the small-eccentricity limit quantify over families of numerically generated waveforms; the formula part is claimed as E01",
    "E36": "how much spin modulation a filter removes is a numerical property of the data; when the filter is applied and what it replaces is claimed as E23",
}
NOTE = ("Decides, for all inputs, that the listed observables of the anchored "
        "functions equal those of the reference definitions (and that the "
        "rule instances hold), in exact arithmetic. Trusts the reference "
        "definitions, the documented behaviour of numpy/scipy and the "
        "engine's normalisation rules. Constructs outside the modelled "
        "subset are reported as UNDECIDED, not as violations.")


def main():
    here = pathlib.Path(__file__).parent.parent
    props = [json.loads(l) for l in open(here / "properties.jsonl")]
    repo = Repo("/repo")
    have = set(rule_modules())
    flow = set()
    for s in load_specs(repo):
        have |= s.all_props()
        flow |= s.all_props()
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif i not in have:
            na.append({"property": i, "reason": "no static check built yet"})
        else:
            tech = VF
            if i in EXTRA and i in rule_modules():
                tech = tech + "; " + EXTRA[i] if i in flow else EXTRA[i]
            checks.append({
                "property": i,
                "quick_cmd": f"python3 -m gwsa check {i} --tier quick",
                "thorough_cmd": f"python3 -m gwsa check {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": tech, "level": "other", "level_note": NOTE})
    m = {"version": 1,
         "setup_cmd": "python3 -c 'import gwsa.report'",
         "checks": checks, "not_applicable": na,
         "notes": "Pure static analysis with the Python standard library; "
                  "no build, no hooks in /repo."}
    (here / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
