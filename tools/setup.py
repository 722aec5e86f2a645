#!/usr/bin/env python3
"""Builds the extraction driver and extracts every feature variant once."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from cdnsa import facts  # noqa: E402

for v in facts.VARIANTS:
    f, info = facts.extract(v)
    print(v, info)
