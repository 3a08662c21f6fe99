#!/usr/bin/env python
"""run_check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
        a.seed, a.tier = replay["seed"], replay["tier"]
    mod = importlib.import_module(f"checks.{a.prop.lower()}")
    sys.exit(mod.CHECK.run(a.tier, a.seed, replay))


if __name__ == "__main__":
    main()
