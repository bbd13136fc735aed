"""S04: decoding is a function of the instance's own input."""
from sessions import *
import corpus

def run():
    c = Check("S04")
    exe = build_harness("h_session")
    r = rng("S04")
    model(c, "SessionMC", "SessionMC2.cfg")
    asp = ["err", "cons", "bound", "pcm", "rep", "strict"]
    g = schedules(scale(300, 4000), r, corpus.pairs(r, scale(10, 16)), "S04", multi=3, steps=45, anc=0)
    check_sessions(c, exe, g, asp, what="schedule")
    # memory contents, alignment and what lies behind the input
    groups = []
    FL = ["", "fill=255 pad=255", "fill=165 off=16 pad=170", "fill=-%d off=32 pad=1" % r.randrange(1, 999), "fill=1 off=48", "fill=127", "fill=63 pad=192"]
    for batch in corpus.batches(corpus.every(), 4):
        p = Pool(); ss = []
        for st in batch:
            cfg, aus = st
            n = scale(14, 60)
            p.word(cfg); [p.word(a) for a in aus[:n]]
            sid = p.stream(mhas.stream(cfg, aus[:n]))
            for o in {st.base, *r.sample(st.opts, min(scale(4, 20), len(st.opts)))}:
                for fl in FL[:1] + r.sample(FL[1:], scale(4, 6)):
                    ss.append(Session(p).create(0, sid, o, fl).do("run 0", "delete 0"))
        groups.append((p, ss))
    check_sessions(c, exe, groups, asp, what="memory contents")
    return c.finish()
