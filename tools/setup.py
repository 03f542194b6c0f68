#!/usr/bin/env python3
"""Builds every harness once, so that the checks only rebuild what changed."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from catalog import CHECKS
for h, cfg in sorted({(c["harness"], c["cfg"]) for c in CHECKS.values()}):
    r = subprocess.run([sys.executable, HERE + "/build.py", "--harness", h, cfg])
    if r.returncode:
        sys.exit(r.returncode)
