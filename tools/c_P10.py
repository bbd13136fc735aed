"""P10: downmix matrices of the configuration against Dmx.tla, as decoded and in the audio."""
from parsers import *
from drcstream import *
import c_S14
def cases(n, tag):
    r = rng(tag); out = []
    for w in ("1000000", "60", "8"):
        for b, e, ci, lin, co, bits, mtx, eq in gen("DmxGen", n // 3, seed_tag=tag + w, heap="3g", env={"WILD": w}):
            q = dict(k="mtx", b=list(b), ci=ci, lin=list(lin), co=co)
            out.append(q)
            for m in mutations(r, q["b"], scale(2, 4)): out.append({**q, "b": m})
    return out
def line(q): return "%d %d %s %s" % (q["ci"], q["co"], ".".join(map(str, q["lin"])), hexs(q["b"]) or "-")
N = {1: 1, 2: 2, 3: 3, 6: 6}
def ext(r, ents):
    w = BW(); w.u(r.choice((1, 1, 2)), 2)
    if w.bits == [1, 0]: w.u(1, 1).u(1, 1)
    w.u(len(ents), 5)
    for i, (lay, ty, b, n) in enumerate(ents):
        w.u(r.randrange(1, 127) if i == 0 else i + 1, 7).u(ty, 2).u(lay, 6)
        if ty: w.esc(0, 1, 3, 0); w.esc(0, 1, 4, 4); w.u(r.randrange(32), 5).esc(n, 8, 8, 12).raw(bits_of(bytes(b))[:n])
    return w.bytes()
def levels(units, m, base):
    """gain of each channel against base, in eighths of a decibel"""
    out = []
    for c in range(m):
        x = [v for a in units for v in a[c::m]]; v = math.sqrt(sum(v * v for v in x) / max(1, len(x))) / base
        out.append(-99999 if v < 1e-3 else round(160 * math.log10(v)))
    return out
def audio(c):
    exe = build_harness("h_session"); r = rng("P10a"); K = c_S14.parts(); U = 7
    LS = [0, 1, 2, 3, 4, 5, 6, 8, 0, 3, 4, 7, 8, 24, 8, 12, 10, 12, 14, 12, 14]
    def host(q):
        ci, co, ents, i = q
        down = [20 if j == i - 1 else 90 for j in range(N[ci])]
        mk = lambda e: c_S14.build(K, down, 0, None, e, [None] * U, U)
        cfg, st = mk([(1, ext(r, ents))] if ents else [])
        return (cfg, st, mk([])[1], q)
    G = [q for q in gen("DmxGen", scale(700, 6000), seed_tag="P10a", heap="3g", env={"WILD": "1000000", "AUDIO": "1"}) if all(e[3] <= 2048 for e in q[2])]
    H = [h for h in map(host, G) if len(h[0]) <= 760]
    jobs = []
    for k, h in enumerate(H):
        o = r.choice(H)                                          # another configuration first
        jobs.append((h, o[1] if r.random() < .4 and o[3][2] and o[0] != h[0] else b""))
    def work(k):
        part = jobs[k:k + 6]; out = []
        res = pcm(exe, [j for h, p in part for j in ((h[2], "", U), (p + h[1], "cicp=%d" % h[3][1], 2 * U if p else U), (h[2], "cicp=%d" % h[3][1], U))])
        for (h, p), i in zip(part, range(0, len(res), 3)):
            ci, co, ents, n = h[3]; (e0, u0), (e1, u1), (e2, u2) = res[i:i + 3]
            sk = (U if p else 0) + 3
            x = [v for a in u0[3:] for v in a[n - 1::N[ci]]]; base = math.sqrt(sum(v * v for v in x) / max(1, len(x)))
            if e0 or e2 or not base: continue
            err = "" if not e1 else e1 if e1 == "crash" else err_name(e1.upper())
            out.append((dict(k="aud", ci=ci, co=co, ents=[[a, t, list(b), z] for a, t, b, z in ents], i=n, err=err, lev=levels(u1[sk:], LS[co], base), same=int(u1[sk:] == u2[3:])), p + h[1]))
        return out
    got = [x for part in pmap(work, range(0, len(jobs), 6)) for x in part]
    rej, st, tr = validate("DmxTrace", [x[0] for x in got])
    c.add(st, tr, len(got))
    for k, why in rej:
        q, s = got[k]; c.violation("in the audio: layout %d to %d, loudspeaker %d: %s" % (q["ci"], q["co"], q["i"], json.dumps(why)[:300]), {"record": q, "why": why, "stream": s.hex()})
    c.cov["decodes_compared"] = len(got); c.cov["with_matrix_in_use"] = sum(any(e[0] == q["co"] and e[1] for e in q["ents"]) and q["ci"] != q["co"] for q, s in got)
    c.cov["after_another_configuration"] = sum(1 for h, p in jobs if p)
def run():
    c = Check("P10")
    run_parsers(c, build_harness("h_dmx"), "DmxTrace", cases(scale(1500, 18000), "P10"), line)
    audio(c)
    c.assumptions = ["matrices are generated from the specification and damaged at random (seeded); stream layouts are indexed or lists of loudspeakers",
                     "in the audio one loudspeaker sounds at a time, and levels are measured to an eighth of a decibel; with equalizers only which channels sound"]
    return c.finish()
