"""P07: static configuration of dynamic range control and loudness information against Drc.tla."""
from parsers import *

def cases(kind, n, tag):
    r = rng(tag)
    g = []
    for w in ("1000000", "300", "20"):
      for k, dm, fs, F, b, cfg, b2, e in gen("DrcGen", n // 3, seed_tag=tag + w, heap="3g", env={"WILD": w, "KIND": kind}):
        g.append(dict(k=k, dm=dm, fs=fs, F=F, b=list(b), cfg=list(cfg), _p=list(b2), _e=e))
    by = {k: [q["b"] for q in g if q["k"] == k] for k in {q["k"] for q in g}}
    out = []
    for q in g:
        # gains: the payload before must fit the same configuration
        prev = lambda: [] if r.random() < .5 else q["_p"] if q["k"] == "gain" else r.choice(by[q["k"]])
        out.append({**q, "_prev": prev()})
        for m in mutations(r, q["b"], scale(2, 4)): out.append({**q, "b": m, "_prev": prev()})
    return out

def line(q):
    dm = ",".join("%d.%d" % tuple(x) for x in q["dm"]) or "-"
    return "%s %s %s %d %d %s" % (hexs(q["b"]) or "-", hexs(q["_prev"]) or "-", dm, q["fs"], q["F"], hexs(q["cfg"]) or "-")

def run():
    c = Check("P07")
    exe = build_harness("h_drc")
    run_parsers(c, exe, "DrcTrace", cases("static", scale(1600, 20000), "P07"), line)
    c.assumptions = ["inputs are generated from the specification and damaged at random (seeded)"]
    return c.finish()
