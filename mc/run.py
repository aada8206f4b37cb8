"""python3-vt mc/run.py CHECK [--tier quick|thorough] | --replay FILE"""
import argparse
import json
import os
import sys

for var in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(var, "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if __name__ == "__main__":
    p = argparse.ArgumentParser()
    p.add_argument("check", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                   choices=["quick", "thorough"])
    p.add_argument("--replay")
    a = p.parse_args()
    check = a.check
    if a.replay:
        with open(a.replay) as f:
            check = json.load(f)["module"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(core.main(check, a.tier, seed, a.replay))
