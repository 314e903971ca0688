#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] [--strict] [--only substr]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") != "0":  # reproducible set order
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)

from pyvc import harness  # noqa: E402


def cli():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    harness.setup_repo()
    mod = importlib.import_module("checks." + a.pid.lower())
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(harness.main(a.pid, mod, a.tier, seed, a.strict, a.only))


if __name__ == "__main__":
    cli()
