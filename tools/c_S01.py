"""S01: life cycle and memory of decoder instances."""
from sessions import *
import corpus

OPTS = ["", "cicp=6 pcm=24", "cicp=2 pcm=32 effect=1", "cicp=13 tl=80", "cicp=99", "pcm=17", "preset=40 effect=9", "ofs=48000"]

def run():
    c = Check("S01")
    exe = build_harness("h_session")
    r = rng("S01")
    model(c, "LifecycleMC")
    asp = ["life"]
    # the allocator fails at every request in turn, before and after healthy lives, beside a decoding neighbour
    groups = []
    S = corpus.every()
    for o in OPTS[:scale(5, 8)]:
        p = Pool(); cfg, aus = S[0]
        p.word(cfg); [p.word(a) for a in aus[:4]]
        sid = p.stream(mhas.stream(cfg, aus[:4]))
        ev, rc = run_session(exe, Session(p).create(0, sid, o).do("delete 0").script())
        if rc != 0 or not ev or "nreq" not in ev[0]: raise CheckError("create/delete probe: rc %s" % rc)
        nreq = ev[0]["nreq"]
        ss = []
        for f in range(nreq + 2):
            fl = r.choice(FILLS)
            s = Session(p).create(1, sid).do("run 1 2").create(0, sid, o, "failat=%d %s" % (f, fl)).do("delete 0", "run 1 1")
            s.create(0, sid, o, fl).do("run 0 3", "delete 0").create(0, sid, o, "failat=%d %s" % (max(0, nreq - 1 - f), fl)).do("delete 0", "run 1", "delete 1")
            ss.append(s)
        groups.append((p, ss)); c.cov["requests"] = nreq
    check_sessions(c, exe, groups, asp, what="allocation failure")
    # histories over three instances
    g = schedules(scale(120, 1500), r, corpus.pairs(r, 6), "S01", opts=OPTS, multi=3, steps=40)
    for p, ss in g:
        for s in ss:        # whatever is alive at the end is deleted
            live = []
            for l in s.lines:
                w = l.split()
                if w[0] == "create": live.append(w[1])
                if w[0] == "delete" and w[1] in live: live.remove(w[1])
            s.do(*["delete %s" % k for k in live])
    check_sessions(c, exe, g, asp, what="history")
    # damaged streams: nothing outside the blocks, everything returned
    groups = []
    for j in range(8):
        p = Pool(); ss = []
        for i in range(scale(40, 600)):
            st = r.choice(S); cfg, aus = st
            b = damaged(r, mhas.stream(cfg, aus[:r.choice([3, 8, 15])]), r.choice([0, 3, 14]))
            ss.append(Session(p).create(0, p.stream(b), r.choice(OPTS + [st.base, st.base] + st.opts), r.choice(FILLS)).do("run 0 60 %d" % r.choice([100000, 700, 64]), "delete 0"))
        groups.append((p, ss))
    check_sessions(c, exe, groups, asp, strict=False, what="damaged stream")
    c.cov["damaged_streams"] = sum(len(s) for _, s in groups)
    return c.finish()
