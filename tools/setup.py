#!/usr/bin/env python3
"""Checks that the tools are there and builds the driver once."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
ok, exe, out = check.cargo([], False)
if not ok:
    print(out)
    sys.exit(1)
for j in check.JARS.split(":"):
    if not os.path.exists(j):
        print("missing", j)
        sys.exit(1)
sys.exit(subprocess.call(["java", "-version"]))
