"""D03: binaural rendering: each ear hears the loudspeakers through the responses given."""
from parsers import *
from drcstream import *
import c_S14, struct, sys
N = {1: 1, 2: 2, 3: 3, 6: 6}
def data(r, reps):
    w = BW(); w.u(0x42524952, 32).u(r.randrange(256), 8); name = r.randrange(0, 5); w.u(name, 8)
    for k in range(name): w.u(r.randrange(256), 8)
    w.u(r.randrange(2), 1).u(len(reps), 4); out = b""
    for q in reps:
        if q["f"] in (48000, 44100) and r.random() < .6: w.u({48000: 3, 44100: 4}[q["f"]], 5)
        else: w.u(31, 5).u(q["f"], 24)
        if q["h"] >= 0: w.u(1, 1).esc(q["h"], 3, 5, 0)
        else:
            w.u(0, 1)
            if q["lay"]: w.u(0, 2).u(q["lay"], 6).esc(q["p"] - 1, 5, 8, 0)
            else:
                w.u(1, 2).esc(len(q["s"]) - 1, 5, 8, 16)
                for k in q["s"]: w.u(k, 7)
        w.u(2, 2); w.raw([0] * (-len(w.bits) % 8)); w.u(r.randrange(65536), 16).u(q["n"], 16).u(len(q["d"]), 8)
        o = array.array("f", [r.choice((1.0, 1.0, 1.5)) for k in range(2 * q["p"] + 2 * len(q["d"]))] + [x / 2 for x in q["w"]])
        t = array.array("f", bytes(8 * q["p"] * q["n"]))
        if q is not reps[-1]: t = array.array("f", [.25] * len(t))        # not used
        for e, p, at, v in q["t"]: t[2 * ((p - 1) * q["n"] + at) + e - 1] += v / 4
        o += t
        for d in q["d"]:
            t = array.array("f", bytes(8 * q["n"]))
            for e, at, v in d: t[2 * at + e - 1] += v / 4
            o += t
        if sys.byteorder == "little": o.byteswap()
        out += w.bytes() + o.tobytes(); w = BW()
    return out + w.bytes() + bytes(8)
# a program of one loudness, for normalization
LOUD = BW().u(1, 6).u(0, 2).u(0, 6).u(0, 7).u(0, 1).u(0, 1).u(1, 4).u(1, 4).u(160, 8).u(2, 4).u(3, 2).u(0, 1).u(0, 1).bytes()
def stream(K, down, units, loud):
    """its first access unit silent: format conversion is late, and what comes before its first sample is not put out"""
    k = K[:3] + (K[3] * 8,)
    mk = lambda d: c_S14.build(k, d, len(d), BW().u(0, 9).u(len(d), 7).u(0, 2).bytes() if loud else None, [(2, LOUD)] if loud else [], [None] * units, units)[1]
    a, b = mk([100] * len(down)), mk(down); out, u = b"", 0
    for t, l, s, c, e in mhas.split(b):
        if t == mhas.FRAME:
            if u == 0: out += next(a[z[2]:z[4]] for z in mhas.split(a) if z[0] == mhas.FRAME); u = 1; continue
        out += b[s:e]
    return out
def deviation(x, y, m, contrib, lat):
    """of y, one ear, from the loudspeakers x (m channels interleaved) filtered; parts per million of the peak of it or of what it is a sum of"""
    n = min(len(y), len(x) // m + lat); y = y[:n]; want = [0.0] * n      # the limiter, which is not used for the ears, keeps the last samples
    per = {}
    for c, d, g in contrib: per[(c, d)] = per.get((c, d), 0) + g / 8
    big = 0
    for (c, d), g in per.items():
        if not g: continue
        s = x[c - 1::m]; at = lat + d; big = max(big, abs(g) * max(map(abs, s), default=0))
        for k in range(min(len(s), len(want) - at)): want[at + k] += g * s[k]
    pk = max(map(abs, want), default=0)
    if pk > .95 * 2 ** 31: return -1
    return min(10 ** 6, round(1e6 * max(map(abs, map(float.__sub__, want, map(float, y))), default=0) / max(pk, big, 2 ** 16)))
def run():
    c = Check("D03")
    exe = build_harness("h_session"); r = rng("D03"); K = c_S14.parts(); LS = [0, 1, 2, 3, 4, 5, 6, 8, 0, 3, 4, 7, 8, 24, 8, 12, 10, 12, 14, 12, 14]
    G = gen("BinGen", scale(260, 2600), seed_tag="D03", heap="3g")
    jobs = []
    for ci, cq, reps, x in G:
        down = [r.randrange(22, 34) for k in range(N[ci])]
        far = max([d for e in x["h"] for _, d, _ in e], default=0) + x["b"] + 4096
        units = min(64, max(7, far // 1024 + 4)); loud = r.random() < .3
        pre = r.randrange(2, 12) if cq and r.random() < .3 and x["e"] == "ok" else 0
        before = b""
        if pre: before = stream(K, [24] * r.choice([n for n in (1, 2, 3, 6) if n != N[ci]]), pre, 0)
        jobs.append((ci, cq, reps, x, stream(K, down, units, loud), before, units, pre, loud, ("cicp=%d " % cq if cq else "") + ("tl=%d " % r.randrange(60, 100) if loud else ""), data(r, reps)))
    def work(i):
        ci, cq, reps, x, st, before, units, pre, loud, opt, br = jobs[i]
        p = tmp("br%d.bin" % i); open(p, "wb").write(br)
        (e0, u0), = pcm(exe, [(st, opt, units)])
        (e1, u1), = pcm(exe, [(before + st, opt + "brir=@" + p, units + pre)])
        os.unlink(p)
        if e0: return None
        late0 = 0
        if pre:
            (e2, u2), = pcm(exe, [(before, opt, pre)])
            if e2: return None
            late0 = 256 if 1024 * pre - sum(map(len, u2)) // LS[cq] >= 256 else 0
        err = "" if not e1 else e1 if e1 == "crash" else err_name(e1.upper())
        lens = [len(u) // 2 for u in u1]; m = LS[cq or ci]
        late = 256 if 1024 * units - sum(map(len, u0)) // m >= 256 else 0       # the samples left out for format conversion, besides 240 for the limiter
        ears = [[h, 0] for h in x["h"]] or [[[], 0], [[], 0]]
        if x["e"] == "ok" and not err:
            y = [v for u in u1 for v in u]; sk = 0
            if pre: sk = max(0, (x["l"] + 1024 * pre) // x["b"] * x["b"] - late0)
            s = [v for u in u0 for v in u]
            for e in (0, 1): ears[e][1] = deviation(s, y[2 * sk + e::2], m, x["h"][e], x["l"])
        return dict(ci=ci, cq=cq, reps=reps, units=units, pre=pre, late=late, late0=late0, err=err, lens=lens, ears=ears), i
    got = [x for x in pmap(work, range(len(jobs))) if x]
    rej, st, tr = validate("BinTrace", [x[0] for x in got])
    c.add(st, tr, len(got))
    for k, why in rej:
        q, i = got[k]; j = jobs[i]
        c.violation("layout %d to %d, taps %s: %s" % (q["ci"], q["cq"], [z["n"] for z in q["reps"]], json.dumps(why)[:300]), {"record": q, "why": why, "options": j[9], "stream": (j[5] + j[4]).hex(), "binaural": j[10].hex() if len(j[10]) < 400000 else ""})
    ok = [(q, jobs[i]) for q, i in got if not q["err"]]
    c.cov["decodes"] = len(got); c.cov["rendered"] = len(ok); c.cov["with_normalization"] = sum(1 for q, j in ok if j[8]); c.cov["after_another_configuration"] = sum(1 for q, j in ok if q["pre"])
    c.cov["too_loud_to_compare"] = sum(1 for q, j in ok if min(e[1] for e in q["ears"]) < 0); c.cov["block_sizes"] = sorted({j[3]["b"] for q, j in ok}); c.cov["diffuse"] = sum(1 for q, j in ok if q["reps"][-1]["d"])
    c.cov["positions"] = {"indexed": sum(1 for q, j in ok if q["reps"][-1]["lay"]), "list": sum(1 for q, j in ok if q["reps"][-1]["h"] < 0 and not q["reps"][-1]["lay"]), "ambisonics": sum(1 for q, j in ok if q["reps"][-1]["h"] >= 0)}
    c.assumptions = ["responses of few taps that are not zero, in quarters; cut-off frequencies at or above all of the band; layouts of at most one subwoofer",
                     "signals kept below the level where they are limited; compared to 200 parts per million of the peak of what is put out or of one of its parts"]
    return c.finish()
