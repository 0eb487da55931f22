#!/usr/bin/env python3
"""Usage: check.py <property> | check.py --replay <file>"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import core

core.reexec(os.path.abspath(__file__), sys.argv[1:])
if sys.argv[1] == "--selftest":
    sys.exit(core.selftest())
if sys.argv[1] == "--replay":
    sys.exit(core.replay(os.path.abspath(sys.argv[2])))
sys.exit(
    core.check(sys.argv[1], int(os.environ.get("VERIF_SEED", "1")),
               os.environ.get("VERIF_TIER", "quick"))
)
