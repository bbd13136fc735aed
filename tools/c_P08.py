"""P08: higher order ambisonics (configuration, frame histories, rendering matrices) against Hoa.tla."""
from parsers import *

def cases(n, tag):
    r = rng(tag)
    g = []
    for w in ("1000000", "400", "40"):
        for k, ntr, cfg, fs, e, cicp in gen("HoaGen", n // 3, seed_tag=tag + w, heap="3g", env={"WILD": w}):
            g.append(dict(k=k, ntr=ntr, cicp=cicp, cfg=list(cfg), fs=[list(f) for f in fs]))
    out = []
    for q in g:
        out.append(q)
        if q["k"] != "hoa":
            for m in mutations(r, q["cfg"], scale(2, 4)): out.append({**q, "cfg": m})
            continue
        for i in range(scale(2, 5)):   # damage one frame, lose one, or add one that is not there
            fs = list(q["fs"]); k = r.randrange(len(fs)); m = r.random()
            if m < .6: fs[k] = mutations(r, fs[k], 1)[0]
            elif m < .75 and len(fs) > 1: del fs[k]
            elif m < .85: fs.append(r.choice(fs))
            else: r.shuffle(fs)
            out.append({**q, "fs": fs})
    for q in out: q["b"] = sum(q["fs"], q["cfg"])
    return out

def line(q):
    c = hexs(q["cfg"]) or "-"
    if q["k"] == "mtx": return "%d %d %s" % (q["ntr"], q["cicp"], c)
    return "%d %s %s" % (q["ntr"], c, ",".join(hexs(f) or "-" for f in q["fs"]))

def run():
    c = Check("P08")
    exe = build_harness("h_hoa")
    run_parsers(c, exe, "HoaTrace", cases(scale(1500, 18000), "P08"), line)
    c.assumptions = ["configurations, frames and matrices are generated from the specification and damaged at random (seeded)",
                     "a history ends with its first refused frame"]
    return c.finish()
