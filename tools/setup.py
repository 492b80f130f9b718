#!/usr/bin/env python3
"""Prebuilds every harness (warm cache; the checks rebuild whatever changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS, targets
ts = {}
for i in CHECKS:
    for t in targets(i): ts[t[0]] = t
try: build.build(list(ts.values()))
except build.BuildError as e:
    print(e); sys.exit(1)
print("built", len(ts), "harnesses")
