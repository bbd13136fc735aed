"""P03: mpegh3daConfig against the grammar and the profile limits of Config.tla."""
from parsers import *

def run():
    c = Check("P03")
    exe = build_harness("h_config")
    r = rng("P03")
    g = gen("ConfigGen", scale(700, 30000), env={"WILD": "300"}, seed_tag="P03a", heap="3g")
    g += gen("ConfigGen", scale(300, 12000), env={"WILD": "6"}, seed_tag="P03b", heap="3g")
    cases, last = [], None
    def add(opt, b):
        cases.append({"k": "cfg", "b": b, "a": [opt], "_prev": last if last and r.random() < .5 else []})
    for k, opt, b, e in g:
        if len(b) > 5000: continue
        add(opt, b)
        for m in mutations(r, b, scale(1, 3)): add(opt, m)
        if r.random() < .4 and e == "ok": last = b
    run_parsers(c, exe, "ConfigTrace", cases, lambda q: "%s %s %d" % (hexs(q["b"]), hexs(q["_prev"]), q["a"][0]))
    c.cov["grammar_inputs"] = len(g)
    c.assumptions = ["inputs are generated from the grammar, mutated and truncated (seeded); half of the parses run into the state an earlier configuration left",
                     "configurations with spatial-audio-object groups or transmitted HOA rendering matrices are only required not to crash"]
    return c.finish()
