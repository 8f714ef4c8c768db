"""Command line of the checks.

    python3 -m gwsa check E01            decide property E01 on /repo
    python3 -m gwsa list                 obligations per property
    python3 -m gwsa all                  every property (development)
"""
import argparse
import json
import os
import sys
import time

from . import report
from .model import AnalysisBroken


def main(argv=None):
    ap = argparse.ArgumentParser(prog="gwsa")
    ap.add_argument("cmd", choices=["check", "all", "list"])
    ap.add_argument("props", nargs="*")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    try:
        if a.cmd == "check":
            rc = 0
            for p in a.props:
                rc = max(rc, report.check(p, a.repo, a.tier, a.seed,
                                          not a.no_evidence))
            return rc
        if a.cmd == "list":
            return report.listing(a.repo)
        return report.check_all(a.repo, a.props)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
