#!/usr/bin/env python3
"""Builds the MIR dumper and warms the dependency build (both in /verif/.cache; a check does it itself when missing)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import build  # noqa: E402

print(build.dump(None))
