"""D01: choice of DRC sets and loudness normalization gain against DrcSelect.tla."""
from parsers import *

def line(q):
    p = q["p"]
    return "%s %s %s %s %s %s" % (hexs(q["b"]), hexs(q["lb"]), ",".join("%d.%d" % tuple(x) for x in q["dm"]),
        ",".join(str(p[k]) for k in ("on", "eff", "ln", "tl", "req", "max", "dev", "gmax", "meth", "sys", "pref")),
        ",".join(map(str, p["grp"])) or "-", ",".join("%d.%d" % x for x in zip(p["pre"], p["mem"])) or "-")

def cases(n):
    r = rng("D01")
    g = gen("SelectGen", n, seed_tag="D01", heap="3g", env={"WILD": "1000000"})
    out = []
    for b, lb, p, dm in g:
        out.append(dict(k="sel", b=list(b), lb=list(lb), p=p, dm=[list(x) for x in dm]))
        for _ in range(6):       # the same data, asked differently
            p2 = dict(g[r.randrange(len(g))][2])
            out.append({**out[-1], "p": p2})
        out.append({**out[-1], "lb": list(g[r.randrange(len(g))][1])})
    return out

def run():
    c = Check("D01")
    exe = build_harness("h_select")
    run_parsers(c, exe, "SelectTrace", cases(scale(4000, 24000)), line)
    c.assumptions = ["one downmix requested, at most one preset, no album mode: what the decoder itself ever asks for",
                     "configurations, loudness information and requests are generated from the specification so that they meet often (seeded)"]
    return c.finish()
