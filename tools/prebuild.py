#!/usr/bin/env python3
"""setup: compile the harnesses once so that the first check does not pay for it (checks rebuild on any change)."""
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import vlib
BOTH = {"h_cint"}
ASAN = {"h_api", "h_layout", "h_reg", "h_cone"}
for f in sorted(glob.glob(os.path.join(vlib.HARNESS, "h_*.cc"))):
    n = os.path.basename(f)[:-3]
    try:
        vlib.build(n, "asan" if n in ASAN else "product")
        if n in BOTH:
            vlib.build(n, "asan")
    except vlib.CheckError as e:
        print(e)
