"""S09: chunking and truncation."""
from sessions import *
import corpus

def run():
    c = Check("S09")
    exe = build_harness("h_session")
    r = rng("S09")
    model(c, "SessionMC")
    asp = ["err", "bound", "pcm", "strict"]
    groups = []
    for st in corpus.samples() + r.sample(corpus.built(), scale(10, 47)):
        cfg, aus = st
        p = Pool(); n = scale(10, 40); aus = aus[:n]
        p.word(cfg); [p.word(a) for a in aus]
        full = mhas.stream(cfg, aus)
        sid = p.stream(full)
        ss = [Session(p).create(0, sid, st.base).do("run 0", "delete 0")]
        for m in (400, 512, 700, 1000, 1500, 4000):                    # fixed buffer sizes
            if m >= max(map(len, aus)) + 20: ss.append(Session(p).create(0, sid, st.base, r.choice(FILLS)).do("run 0 -1 %d" % m, "delete 0"))
        pk = mhas.split(full)
        for t, l, a, b, e in pk[1:]:                                    # the stream ends at every packet boundary
            ss.append(Session(p).create(0, p.stream(full[:e]), st.base).do("run 0", "delete 0"))
        cuts = set()
        for t, l, a, b, e in pk:                                        # ... and inside packets
            for x in ([a + 1, b, b + 1, b + 2, e - 1, e - 2] + [r.randrange(a, e) for _ in range(scale(3, 12))]):
                if a < x < e: cuts.add(x)
        for x in sorted(cuts):
            q = max([e for t, l, a, b, e in pk if e <= x] + [0])
            nb = len([1 for t, l, a, b, e in pk if e <= x and t in (mhas.FRAME,)])
            # whole packets, then what is left of the cut one (behind it nothing or rubbish: the pad option)
            s = Session(p).create(0, sid, st.base, r.choice(["", "pad=255", "pad=85"]))
            if nb or q: s.do("run 0 %d %d" % (nb + (1 if q > len(mhas.SYNCPKT) else 0), 10**6) if q > len(mhas.SYNCPKT) else "seek 0 %d" % q)
            ss.append(s.do("step 0 %d" % (x - q), "delete 0"))
        groups.append((p, ss))
    check_sessions(c, exe, groups, asp, what="buffers and cuts")
    g = schedules(scale(150, 2500), r, corpus.pairs(r, scale(4, 12)), "S09", multi=1, steps=45, less=1, epoch=0)
    check_sessions(c, exe, g, asp, what="chunk sequence")
    c.assumptions = ["a unit that was cut must end in an error without audio; which error is left open"]
    return c.finish()
