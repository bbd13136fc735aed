#!/usr/bin/env python3
"""Warm the build cache (checks rebuild whatever changed in /repo)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build_lib()
for f in sorted(os.listdir(vlib.HARN)):
    if f.startswith("h_") and f.endswith(".c"):
        try: vlib.build_harness(f[:-2])
        except vlib.CheckError as e: print("setup: %s" % e)
