"""P09: gain payloads of dynamic range control against Drc.tla."""
from parsers import *
from c_P07 import cases, line

def run():
    c = Check("P09")
    exe = build_harness("h_drc")
    run_parsers(c, exe, "DrcTrace", cases("gain", scale(2400, 30000), "P09"), line)
    c.assumptions = ["payloads are generated from the specification for generated configurations and damaged at random (seeded)",
                     "linear interpolation between gains, as the profile demands"]
    return c.finish()
