"""S07: the three word sizes carry one decode."""
from sessions import *
from outputs import Run
import corpus

def run():
    c = Check("S07")
    r = rng("S07")
    exe = build_harness("h_session")
    model(c, "WordsMC")
    jobs = []
    for s in corpus.every() + corpus.overload():
        n = scale(6, 8) if len(s[1]) < 20 else scale(10, 120)
        os_ = [s.base] + [o for o in s.opts if "pcm" not in o and o != s.base]
        for o in [os_[0]] + r.sample(os_[1:], min(len(os_) - 1, scale(1, 12))): jobs.append((Run([(s[0], s[1][:n])], o), o, s.name))
    def play(j):
        (run_, o, name), k = j
        f = tmp("w_%d.bin" % k); open(f, "wb").write(run_.b)
        got = []
        for w in (16, 24, 32):
            p = tmp("w_%d_%d.pcm" % (k, w))
            ev, rc = run_session(exe, "stream s %s\ncreate 0 stream=s pcm=%d %s\npcm 0 %s\nrun 0 400\ndelete 0\n" % (f, w, o, p), 300)
            pcm = open(p, "rb").read() if os.path.exists(p) else b""
            if os.path.exists(p): os.unlink(p)
            ev = [e for e in ev if e.get("e") in ("init", "exec")]
            if rc: raise_crash.append((k, rc))
            got.append((ev, pcm))
        os.unlink(f)
        q = random.Random("%s/%d" % (SEED, k)); recs = []
        at = [0, 0, 0]
        if len({len(g[0]) for g in got}) > 1:
            recs.append(dict(err=[str(len(g[0])) for g in got], out=[0, 0, 0], a=[], b=[], c=[])); return recs
        for es in zip(*[g[0] for g in got]):
            out = [e["out"] for e in es]
            d = [g[1][a:a + x] for g, a, x in zip(got, at, out)]
            at = [a + x for a, x in zip(at, out)]
            n = len(d[0]) // 2; ch = max(1, es[0]["ch"])
            # instants: some at random and those at full scale
            fr = set(q.sample(range(n // ch), min(n // ch, scale(60, 300)))) if n >= ch else set()
            full = [i // ch for i in range(n) if d[0][2 * i + 1] in (0x7f, 0x80) or abs(int.from_bytes(d[0][2 * i:2 * i + 2], "little", signed=True)) < 3]
            fr |= set(q.sample(full, min(len(full), scale(40, 300))))
            cut = lambda w, b: [x for i in sorted(fr) for x in b[i * ch * w:(i + 1) * ch * w]]
            recs.append(dict(err=[e["err"] for e in es], out=out, a=cut(2, d[0]), b=cut(3, d[1]), c=cut(4, d[2])))
        return recs
    raise_crash = []
    recs, own = [], []
    for (j, rs) in zip(jobs, pmap(play, list(zip(jobs, range(len(jobs)))))):
        recs += rs; own += [j] * len(rs)
    for k, rc in raise_crash: c.violation("the decoder did not return: %s" % rc, {"options": jobs[k][1], "stream": jobs[k][0].b.hex()})
    rej, d, g = validate("WordsTrace", recs, chunks=NCPU)
    c.add(d, g, 3 * len(jobs))
    for i, v in rej:
        c.violation("%s %s" % (own[i][2], json.dumps(v)[:200]), {"options": own[i][1], "stream": own[i][0].b.hex(), "why": v})
    n = sum(len(x["a"]) // 2 for x in recs)
    full = sum(1 for x in recs for i in range(1, len(x["a"]), 2) if (x["a"][i], x["a"][i - 1]) in ((0x7f, 0xff), (0x80, 0)))
    c.cov.update(sessions=3 * len(jobs), calls=len(recs), samples=n, at_full_scale=full)
    c.samples.append({"options": jobs[0][1], "stream": jobs[0][0].b.hex()[:200]})
    return c.finish()
