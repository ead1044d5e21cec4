"""python -m mc.run C01 [--tier quick|thorough] [--unit U [--case C]] [-v]   or   --replay FILE"""
import argparse
import importlib
import json
import os
import sys

from mc import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--unit")
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.property, a.tier, seed, a.unit, a.case = r["property"], r["tier"], r["seed"], r["unit"], r["case"]
    mod = importlib.import_module("mc.checks." + a.property.lower())
    if getattr(mod, "NEEDS_FSX", False):
        from mc import fsx
        r = fsx.ensure()
        if r is not None:
            return r
    return core.main_check(mod, a.tier, seed, a.unit, a.case, a.v, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
