"""S08: configuration changes and repetitions."""
from sessions import *
import corpus

def run():
    c = Check("S08")
    exe = build_harness("h_session")
    r = rng("S08")
    model(c, "SessionMC")
    asp = ["err", "bound", "pcm", "rep", "strict"]
    # every sequence of three epochs (repetitions included), the reference being sessions that start there
    groups = []
    for cf in corpus.pairs(r, scale(12, 16)):
        co = corpus.common(cf)
        for o in {co[0], *r.sample(co, min(scale(1, 6), len(co)))}:
            p = Pool()
            for cfg, aus in cf: p.word(cfg); [p.word(a) for a in aus[:12]]
            ss = [Session(p).create(0, p.stream(mhas.stream(cfg, aus[:12])), o).do("run 0", "delete 0") for cfg, aus in cf]
            nc = len(cf)
            for x in range(nc):
                for y in range(nc):
                    for z in range(nc):
                        b, cur, j = mhas.SYNCPKT, None, 0
                        for q in (x, y, z):
                            if q != cur: cur, j = q, 0
                            b += mhas.packet(mhas.CFG, cf[q][0])
                            for _ in range(r.randrange(0, 4)):
                                if j < len(cf[q][1]): b += mhas.packet(mhas.FRAME, cf[q][1][j]); j += 1
                        ss.append(Session(p).create(0, p.stream(b), o, r.choice(FILLS)).do("run 0", "delete 0"))
            groups.append((p, ss))
    check_sessions(c, exe, groups, asp, what="epochs")
    g = schedules(scale(150, 2500), r, corpus.pairs(r, scale(8, 16)), "S08", multi=1, steps=45, anc=0, epoch=1)
    check_sessions(c, exe, g, asp, what="configuration sequence")
    return c.finish()
