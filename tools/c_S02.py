"""S02: progress through the input."""
from sessions import *
import corpus

def run():
    c = Check("S02")
    exe = build_harness("h_session")
    r = rng("S02")
    model(c, "SessionMC")
    asp = ["cons", "bound", "err", "strict"]
    g = schedules(scale(200, 2500), r, corpus.pairs(r, 6), "S02", multi=1, steps=40, labels=(1, 2, 3, 18, 300))
    check_sessions(c, exe, g, asp, what="packet sequence")
    # joining in the middle: packets before the first configuration are passed one by one
    groups = []
    for st in corpus.samples() + r.sample(corpus.built(), scale(8, 47)):
        cfg, aus = st
        p = Pool(); p.word(cfg); [p.word(a) for a in aus[:8]]
        ss = []
        for i in range(scale(6, 40)):
            b = b"".join((ancillary(r, r.randrange(21)) if r.random() < .4 else b"") + mhas.packet(mhas.FRAME, a) for a in r.sample(aus[:8], r.randrange(1, 4)))
            b += mhas.stream(cfg, aus[:4])
            ss.append(Session(p).create(0, p.stream(b), st.base).do("run 0 %d %d" % (40, r.choice([100000, 100000, 2500])), "delete 0"))
        groups.append((p, ss))
    check_sessions(c, exe, groups, asp, strict=False, what="joining in mid-stream")
    # arbitrary and damaged input
    groups = []
    S = corpus.every()
    for j in range(8):
        p = Pool(); ss = []
        for i in range(scale(60, 900)):
            st = S[0]
            if r.random() < .1: b = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 5, 40, 400])))
            else:
                st = r.choice(S); cfg, aus = st
                b = damaged(r, mhas.stream(cfg, aus[:r.choice([3, 8, 15])]), r.choice([0, 3, 14]))
            s = Session(p).create(0, p.stream(b), r.choice(["", "cicp=2", "cicp=6", "effect=2 tl=64", st.base, r.choice(st.opts)]))
            if r.random() < .3: s.do("run 0 6", "init 0", "init 0", "exec 0")
            ss.append(s.do("run 0 80 %d" % r.choice([100000, 100000, 800, 90, 7]), "delete 0"))
        groups.append((p, ss))
    check_sessions(c, exe, groups, ["bound", "life"], strict=False, what="damaged stream")
    c.cov["damaged_streams"] = sum(len(s) for _, s in groups)
    c.assumptions = ["consumption of a call that ends in a decoding error is only bounded, not fixed"]
    return c.finish()
