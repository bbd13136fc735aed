"""P02: MHAS packet headers and the packet walk against Mhas.tla."""
from parsers import *

def bits_to_bytes(s):
    s += "0" * (-len(s) % 8)
    return [int(s[i:i+8], 2) for i in range(0, len(s), 8)]
def B(v, n): return format(v, "0%db" % n)

def run():
    c = Check("P02")
    exe = build_harness("h_mhas")
    r = rng("P02")
    cases = []
    # every header shape: all escape levels of the three fields, boundary and random values, for terminal and skipped types
    types = [B(t, 3) for t in (0, 1, 2, 5)] + [B(7, 3) + B(x, 8) for x in (0, 1, 3, 4, 7, 8, 9, 10, 11, 13, 100, 253, 254)] + \
            [B(7, 3) + B(255, 8) + B(x, 8) for x in (0, 1, 128, 254, 255)]
    labels = [B(0, 2), B(1, 2), B(2, 2)] + [B(3, 2) + B(x, 8) for x in (0, 1, 127, 254)] + \
             [B(3, 2) + B(255, 8) + B(x, 32) for x in (0, 1, 0xFFFF, 0x10000, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xDEADBEEF, 0xFFFFFFFF)]
    lens = [B(x, 11) for x in (0, 1, 2, 3, 1024, 2046)] + [B(2047, 11) + B(x, 24) for x in (0, 1, 2, 255, 0xABCDE, 0xFFFFFE)] + \
           [B(2047, 11) + B(0xFFFFFF, 24) + B(x, 24) for x in (0, 1, 0x123456, 0xFFFFFF)]
    term = B(1, 3) + B(1, 2) + B(5, 11)
    for t in types:
        for lb in labels:
            for ln in lens:
                if r.random() > (.35 if not thorough() else 1): continue
                h = bits_to_bytes(t + lb + ln)
                pad = [r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 5]))]
                cases.append(h + pad + bits_to_bytes(term))
    # headers at odd bit positions cannot occur except after sync/variable headers: chains of skipped packets
    for _ in range(scale(300, 3000)):
        s = ""
        for _ in range(r.randrange(1, 5)):
            n = r.choice([0, 1, 2, 3, 7])
            s += r.choice(types[:1] + types[4:]) + r.choice(labels) + B(n, 11) + "".join(B(r.randrange(256), 8) for _ in range(n))
            if r.random() < .3: s += B(6, 3) + B(0, 2) + B(1, 11) + B(0xA5 if r.random() < .8 else r.randrange(256), 8)
        s += r.choice(types) + r.choice(labels) + r.choice(lens)
        b = bits_to_bytes(s)
        cases.append(b if r.random() < .7 else b[:r.randrange(len(b))])
    g = gen("MhasGen", scale(300, 4000), env={"KINDS": "mhas"}, seed_tag="P02", heap="3g")
    for k, cfg, b in g:
        if len(b) > 4000: continue
        cases.append(b)
        cases += mutations(r, b, 2)
    q = [{"k": "mhas", "a": [], "b": b, "_prev": cases[i - 1] if i and r.random() < .2 else []} for i, b in enumerate(cases)]
    for x in q:
        if x["_prev"]: x["a"] = [1]
    run_parsers(c, exe, "MhasTrace", q, lambda q: "%s %s" % (hexs(q["b"]), hexs(q["_prev"])))
    c.cov["headers"] = len(cases)
    c.assumptions = ["loudness packets (type 22) are decided by P07's grammar, not here"]
    return c.finish()
