#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import subprocess, sys
for c in (["cargo", "kani", "--version"], ["cbmc", "--version"]):
    r = subprocess.run(c, capture_output=True, text=True)
    print(" ".join(c), "->", r.stdout.strip())
    if r.returncode:
        sys.exit(1)
