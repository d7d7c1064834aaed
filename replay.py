#!/usr/bin/env python3
"""replay.py FILE: executes a replay file; 1 when the violation is there"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import core, runner   # noqa: E402

d = json.load(open(sys.argv[1]))
try:
    v = runner.once(d["property"], d["scenario"])
except core.CheckError as e:
    print("trouble: %s" % e)
    sys.exit(2)
if not v:
    print("property=%s holds on this scenario" % d["property"])
    sys.exit(0)
print("VIOLATION property=%s replay=%s\n%s\n%s" % (d["property"], sys.argv[1], v["what"], v.get("detail", "")))
sys.exit(1)
