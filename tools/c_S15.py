"""S15: data a session is given besides the stream: interaction, local set-up, displacement, binaural responses, MP4 boxes."""
from sessions import *
import corpus, c_D02, c_D03, c_S14, collections
SAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer", "-g1"]
def cut(r, b):
    """the data, or a beginning of it, or with bits changed"""
    x = r.random()
    if x < .7 or not b: return b
    if x < .8: return b[:r.randrange(1, len(b) + 1)]
    b = bytearray(b)
    for i in range(r.randrange(1, 4)): b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return bytes(b)
def run():
    c = Check("S15")
    exe = build_harness("h_session"); san = build_harness("h_session", extra=SAN); r = rng("S15")
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0"
    model(c, "SessionMC")
    by = collections.defaultdict(list)
    for k, sc, w, b, e in gen("SideGen", scale(900, 6000), seed_tag="S15", heap="3g"):
        if e == "ok": by[k].append(bytes(b))
    B = [x for x in gen("BinGen", scale(120, 1200), seed_tag="S15", heap="3g")]
    brir, wide = [], []
    for i, (ci, cq, reps, x) in enumerate(B):
        d = data(r, reps)
        if len(d) > 2_000_000: continue
        p = tmp("s15_%d.bin" % i); open(p, "wb").write(cut(r, d)); brir.append(p)
        if reps and reps[-1]["f"] == 48000 and reps[-1]["h"] >= 0 and reps[-1]["p"] > 8: wide.append(p)
    c.cov["data"] = {k: len(v) for k, v in by.items()}; c.cov["data"]["binaural"] = len(brir)
    def extra(kinds, st):
        o = []
        for k in kinds:
            if k == "ei" and hasattr(st, "ei") and r.random() < .8: o.append("ei=" + cut(r, st.ei).hex()); continue
            if k == "brir": o.append("brir=@" + r.choice(wide if wide and r.random() < .7 else brir))
            elif by[k]: o.append("%s=%s" % (k, cut(r, r.choice(by[k])).hex()))
        return " ".join(o)
    S = corpus.every(); plain, addr, scenes = [], [], []
    # programs with scenes of objects and channels
    K, O = c_S14.parts(), c_D02.objects(); U = 8
    for k, sc, ei, p in gen("InterGen", scale(700, 6000), seed_tag="S15", heap="3g", env={"WILD": "300"}):
        z = bytes(sc)
        if len(z) > 250: continue
        cfg, b = c_D02.mixed(K, O, k, "ch", z, {}, U)
        pr = "preset=%d" % p if 0 <= p < 32 else ""
        st = corpus.Stream((cfg, [b[s:e] for t, l, a, s, e in mhas.split(b) if t == mhas.FRAME])); st.base = pr; st.opts = ["", pr, pr, "cicp=2", "cicp=6"]; st.ei = bytes(ei)
        scenes.append(st)
    scenes = scenes[:scale(130, 1000)]; S = S + scenes
    SETS = [("ei",), ("lsi",), ("sd",), ("brir",), ("ei", "lsi", "sd"), ("ei", "sd"), ("lsi", "brir"), ("ei", "lsi", "sd", "brir")]
    n = scale(10, 60); run = "run 0 %d" % (n + 12)
    for batch in corpus.batches(S, 4):
        p, q = Pool(), Pool(); ss, sa = [], []
        for st in batch:
            cfg, aus = st; aus = aus[:n]
            for o in (p, q): o.word(cfg); [o.word(a) for a in aus]
            b = mhas.stream(cfg, aus); sid, sia = p.stream(b), q.stream(b)
            for j in range(scale(6 if st in scenes else 10, 40)):
                base = r.choice([st.base, st.base, *st.opts, "cicp=2", "cicp=6"]); x = extra(r.choice(SETS), st); o = base + " " + x
                f = r.sample(FILLS, 2)
                ss.append(Session(p).create(0, sid, o, f[0]).do(run, "delete 0"))
                if j % 2: continue
                ss.append(Session(p).create(0, sid, o, f[1]).create(1, sid, base).do("step 1 1", run, "delete 1", "delete 0"))
                if j < scale(5 if st in scenes else 3, 30): sa.append(Session(q).create(0, sia, o).do(run, "delete 0"))
            # who interacts with groups a program does not have changes nothing
            if st in corpus.samples():
                ss.append(Session(p).create(0, sid, st.base).do(run, "delete 0"))
                for j in range(scale(3, 20)): ss.append(Session(p).create(0, sid, st.base, "ei=" + r.choice(by["ei"]).hex()).do(run, "delete 0"))
        plain.append((p, ss)); addr.append((q, sa))
    asp = ["bound", "life", "pcm", "rep"]
    rec = check_sessions(c, exe, plain, asp, strict=False, what="side data", timeout=200)
    check_sessions(c, san, addr, ["bound", "life"], strict=False, what="side data, addresses watched", timeout=300)
    return c.finish()
from c_D03 import data
