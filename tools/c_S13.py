"""S13: loudspeaker layouts."""
from outputs import *

def run():
    c = Check("S13")
    r = rng("S13")
    exe = build_harness("h_session")
    runs = []
    S = corpus.samples() + r.sample(corpus.built(), scale(14, 47))
    for s in S:
        for k in [-1] + list(range(0, 24)) + [40, 63, 255]:
            o = "cicp=%d" % k
            runs.append(Run([(s[0], s[1][:scale(1, 3)])], o, must=o in s.opts or (s.base == "" and not 1 <= k <= 20)))
    for s in corpus.every(): runs.append(Run([(s[0], s[1][:2])], s.base))
    # every reference layout by its index
    bits = "".join("{:08b}".format(x) for x in corpus.samples()[0][0])
    for k in range(64):
        b = bits[:18] + "{:06b}".format(k) + bits[24:]
        cfg = None
        # profile 8, rate 5, frame length 3, two flags, layout type 2: the index follows in 6 bits
        if bits[18:20] == "00":
            b = bits[:20] + "{:06b}".format(k) + bits[26:]
            cfg = bytes(int(b[i:i + 8], 2) for i in range(0, len(b), 8))
        if cfg:
            for o in ["", "cicp=%d" % r.choice([1, 2, 6, 13, 19])]: runs.append(Run([(cfg, corpus.samples()[0][1][:2])], o, must=False))
    for p in corpus.pairs(r, scale(6, 20)):
        for o in corpus.common(p)[:scale(3, 24)]: runs.append(Run([(s[0], s[1][:2]) for s in p], o, must=False))
    check_outputs(c, exe, runs, ["layout"])
    return c.finish()
