"""P06: side interfaces (interaction, local set-up, binaural data, scene displacement) against Side.tla."""
from parsers import *

def run():
    c = Check("P06")
    exe = build_harness("h_side", wraps=("impeghd_compute_filter_params",))
    r = rng("P06")
    g = [dict(k=k, sc=sc, w=w, b=list(b), _e=e) for k, sc, w, b, e in gen("SideGen", scale(1600, 16000), seed_tag="P06", heap="3g")]
    by = {}
    for q in g: by.setdefault(q["k"], []).append(q)
    cases = []
    for q in g:
        prev = r.choice(by[q["k"]])["b"] if r.random() < .5 else []
        cases.append({**q, "_prev": prev})
        for m in mutations(r, q["b"], scale(2, 4)): cases.append({**q, "b": m, "_prev": prev if r.random() < .5 else []})
    # lengths beyond the bounds must be refused even where the data is there
    for q in [q for q in g if q["k"] == "brir" and q["_e"] == "reject"][:scale(24, 120)]: cases.append({**q, "b": q["b"] + [0] * 140000, "_prev": []})
    def line(q):
        sc = q["sc"]
        a = "-" if not sc else ",".join(".".join(map(str, x)) for x in sc["g"]) + "/" + ",".join(map(str, sc["p"]))
        return "%s %s %s %d" % (hexs(q["b"]) or "-", hexs(q["_prev"]) or "-", a, q["w"])
    run_parsers(c, exe, "SideTrace", cases, line)
    c.assumptions = ["inputs are generated from the specification and damaged at random (seeded)"]
    return c.finish()
