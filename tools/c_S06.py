"""S06: raw and MHAS carriage."""
from sessions import *
import corpus

def run():
    c = Check("S06")
    exe = build_harness("h_session")
    r = rng("S06")
    model(c, "SessionMC")
    asp = ["err", "bound", "pcm", "rep", "strict"]
    groups = []
    for batch in corpus.batches(corpus.every(), 4):
        p = Pool(); ss = []
        for st in batch:
            cfg, aus = st
            n = scale(16, 80); aus = aus[:n]
            p.word(cfg); [p.word(a) for a in aus]
            sid, rid = p.stream(mhas.stream(cfg, aus)), p.stream(cfg + b"".join(aus), raw=[cfg] + aus)
            for o in st.opts if thorough() else {st.base, *r.sample(st.opts, min(6, len(st.opts)))}:
                ss.append(Session(p).create(0, sid, o).do("run 0", "delete 0"))
                s = Session(p).create(0, rid, o, r.choice(FILLS), raw=1).do("step 0 %d" % len(cfg))
                ss.append(s.do(*["step 0 %d" % len(a) for a in aus]).do("delete 0"))
        groups.append((p, ss))
    check_sessions(c, exe, groups, asp, what="carriage")
    return c.finish()
