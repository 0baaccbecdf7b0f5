#!/usr/bin/env python3
"""Checks that the tools the analyses need are there; builds nothing."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine

for t in ('opt', 'llvm-link'):
    try:
        p = engine.tool(t)
    except Exception:
        continue
    print(t, p, os.path.exists(p))
print(subprocess.run(['rustc', '--version'], stdout=subprocess.PIPE, text=True).stdout.strip())
