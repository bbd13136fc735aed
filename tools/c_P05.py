"""P05: object metadata frames against the state machine in Oam.tla."""
from parsers import *

def run():
    c = Check("P05")
    exe = build_harness("h_oam")
    r = rng("P05")
    g = gen("OamGen", scale(1600, 16000), seed_tag="P05", heap="3g")
    cases = []
    for k, cf, S, fr in g:
        cases.append({"k": k, "cf": cf, "S": S, "fr": fr})
        for _ in range(scale(1, 2)):
            # damage one frame; the ones after it carry on from whatever it left
            j = r.randrange(len(fr)); f = [list(x) for x in fr]
            f[j][1] = mutations(r, list(f[j][1]), 1)[0]
            cases.append({"k": k, "cf": cf, "S": S, "fr": f})
    def line(q):
        a = q["cf"]
        p = [a["n"], a["uni"], a["pri"], 1024 // q["S"]] if q["k"] == "oam" else \
            [a["n"], a["dif"], a["cdif"], a["ces"], "".join(map(str, a["only"])), "".join(map(str, a["div"]))]
        return "%s %s" % (" ".join(map(str, p)), " ".join("%d:%s" % (s, hexs(b)) for s, b in q["fr"]))
    lines = ["p%d %s %s" % (i, q["k"], line(q)) for i, q in enumerate(cases)]
    got = run_module_par(exe, lines)
    recs, outc, n = [], {}, 0
    for i, q in enumerate(cases):
        x = got["p%d" % i]
        rec = {"k": q["k"], "cf": q["cf"], "fr": q["fr"]}
        if "crash" in x: rec["crash"] = x["crash"]
        else:
            for y in x["res"]: classify(y); outc[y["err"]] = outc.get(y["err"], 0) + 1; n += 1
            rec["res"] = x["res"]
            rec["fr"] = rec["fr"][:len(x["res"])]
        recs.append(rec)
    rej, d, t = validate("OamTrace", recs, chunks=NCPU)
    c.add(d, t, len(recs))
    for i, why in rej: c.violation("%s %s (%s)" % (recs[i]["k"], json.dumps(why), lines[i][:200]), {"line": lines[i], "record": recs[i], "why": why})
    c.cov.update(histories=len(recs), frames=n, outcomes=outc)
    c.samples = [x[:300] for x in lines[:3]]
    c.assumptions = ["histories are generated from the specification and damaged at random (seeded)"]
    return c.finish()
