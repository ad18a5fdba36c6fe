#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [root]: decide one property of the library by static analysis of its source."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.report import run  # noqa: E402

if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run(sys.argv[1], tier, sys.argv[3] if len(sys.argv) > 3 else "/repo"))
