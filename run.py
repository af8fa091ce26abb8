#!/usr/bin/env python3
"""Run the check of one property:  python3 run.py C01 [--replay FILE]

VERIF_SEED (default 1) seeds every random choice of the workload generators,
VERIF_TIER is quick (default) or thorough.
Exit 0: held on everything explored.  Exit 1: violation (VIOLATION line).
Exit 2: inconclusive (a monitor was never reached, a worker died or hung).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from vlib import parent  # noqa: E402  (standard library only)

if __name__ == "__main__":
    sys.exit(parent.main(sys.argv[1:], HERE))
