#!/usr/bin/env python3
"""Builds the simulators and the system under simulation."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from dst import core   # noqa: E402

print(core.build_tree().dir)
