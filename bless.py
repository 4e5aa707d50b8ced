#!/usr/bin/env python3
"""Rewrites ref/ from the tree in /repo (for a maintainer, after a deliberate change of the result format)."""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":   # sets are walked in the same order in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import c05, c08, c15, c18, filters, shape  # noqa: E402
from sa.facts import Facts  # noqa: E402

F = Facts()
shape.bless(F)
c08.bless(F)
c15.bless(F)
filters.bless(F)
c05.bless(F)
c18.bless(F)
