#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--limit N] [--case NAME]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import frame  # noqa: E402


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--limit", type=int)
    a.add_argument("--case")
    a.add_argument("--jobs", type=int, default=8)
    o = a.parse_args()
    m = importlib.import_module("vlib.checks.%s" % o.prop.lower())
    sys.exit(frame.main(m.CHECK, o.tier, o.seed, o.jobs, o.limit, o.case))


if __name__ == "__main__":
    main()
