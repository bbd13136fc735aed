"""P04: audio scene information, earcon and PCM signalling parsers against the grammar in Asi.tla."""
from parsers import *

def run():
    c = Check("P04")
    exe = build_harness("h_mhas")
    r = rng("P04")
    g = gen("MhasGen", scale(900, 8000), env={"KINDS": "asi"}, seed_tag="P04", heap="3g")
    cases, last = [], {}
    def add(k, cfg, b):
        q = {"k": k, "b": b, "a": cfg if k == "pcmd" else []}
        q["_prev"] = last[k] if k in last and r.random() < .5 else []
        cases.append(q)
    for k, cfg, b in g:
        if len(b) > 6000: continue
        add(k, cfg, b)
        for m in mutations(r, b, scale(2, 4)): add(k, cfg, m)
        if r.random() < .3: last[k] = b
    def line(q):
        if q["k"] == "pcmd": return "%s %d %d %d %d" % tuple([hexs(q["b"])] + q["a"])
        return "%s %s" % (hexs(q["b"]), hexs(q["_prev"]))
    run_parsers(c, exe, "MhasTrace", cases, line)
    c.cov["grammar_inputs"] = len(g)
    c.assumptions = ["inputs are generated from the grammar, mutated and truncated (seeded); each parse also runs into a structure left over from an earlier packet"]
    return c.finish()
