"""S05: ancillary packets are transparent."""
from sessions import *
import corpus

def run():
    c = Check("S05")
    exe = build_harness("h_session")
    r = rng("S05")
    model(c, "SessionMC")
    asp = ["err", "cons", "bound", "pcm", "rep", "strict"]
    # every kind of packet at every boundary of a short stream
    groups = []
    for st in corpus.samples() + r.sample(corpus.built(), scale(8, 47)):
        cfg, aus = st
        p = Pool(); aus = aus[:4]
        p.word(cfg); [p.word(a) for a in aus]
        pk = [mhas.SYNCPKT, mhas.packet(mhas.CFG, cfg)] + [mhas.packet(mhas.FRAME, a) for a in aus]
        ss = [Session(p).create(0, p.stream(b"".join(pk)), st.base).do("run 0", "delete 0")]
        for t in range(21):
            for at in range(len(pk) + 1):
                if r.random() > scale(.25, 1): continue
                b = b"".join(pk[:at]) + ancillary(r, t) + b"".join(pk[at:])
                ss.append(Session(p).create(0, p.stream(b), st.base).do("run 0", "delete 0"))
        groups.append((p, ss))
    check_sessions(c, exe, groups, asp, what="inserted packet")
    g = schedules(scale(160, 2500), r, corpus.pairs(r, scale(5, 12)), "S05", multi=1, steps=40, labels=(1, 1, 2, 17, 300))
    check_sessions(c, exe, g, asp, what="packet sequence")
    return c.finish()
