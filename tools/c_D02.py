"""D02: which channels sound under the audio scene and the preset chosen."""
from parsers import *
from drcstream import *
import corpus, c_S14

def spk_stream(n, down, K, cfgsc, packs, units):
    """n quieter copies of sample 0's channel; cfgsc: scene in the configuration, packs: {access unit: scene} in packets"""
    ext = [(3, cfgsc)] if cfgsc is not None else []
    cfg, st = c_S14.build(K, down, 0, None, ext, [None] * units, units)
    return cfg, insert(st, packs)
def insert(st, packs):
    out, u = b"", 0
    for t, l, a, c, e in mhas.split(st):
        if t == mhas.FRAME:
            if u in packs: out += mhas.packet(mhas.ASI, packs[u], l)
            u += 1
        out += st[a:e]
    return out
def objects():
    """of sample 3: its elements in the configuration, and of each access unit where its channel begins and the bits"""
    s = corpus.samples()[3]; fr = []
    for a, z, l in zip(s[1], corpus.samples()[0][1], c_S14.AT):
        q = BR(a); q.u(1)
        if q.u(1) and not q.u(1):
            m = q.u(8); q.p += 8 * m
        x = bits_of(a); p = q.p; q.p += l - 1
        if q.u(1) and not q.u(1):
            m = q.u(8)
            if m == 255: m = q.u(16) + 253
            q.p += 8 * m
        fr.append((x[:q.p], p))
    return bits_of(s[0])[44:91], fr
def mixed(K, O, n, hear, sc, packs, units):
    """n channels and an object; hear: "obj" or "ch", the others far too quiet"""
    head, sce, fill, fr = K
    ele, ob = O
    far = lambda x: c_S14.quieter(x, int("".join(map(str, x[2:10])), 2) - 4)
    w = BW(); w.raw(head[:-1] + [1]); w.u(0, 2).u(c_S14.LAYOUT[n], 6); w.u(1, 5).u(0, 3).esc(n - 1, 5, 8, 16).u(0, 1).u(1, 3).esc(0, 5, 8, 16)
    w.esc(n + 3 - 1, 4, 8, 16); w.u(0, 1)
    for i in range(n): w.raw(sce)
    w.raw(ele[:-1] + exts([(3, sc)] if sc is not None else []))
    cfg = w.bytes(); aus = []
    for u in range(units):
        i, c, f = fr[u]; x, p = ob[u]
        ch = c_S14.quieter(c, 16) if hear == "ch" else far(c)
        o = c_S14.quieter(x[p:], 12) if hear == "obj" else far(x[p:])
        aus.append(BW().raw([i] + ch * n + x[1:p] + o).bytes())
    return cfg, insert(mhas.stream(cfg, aus), packs)
def states(x, y, nout, units, tol):
    """of each access unit and channel: 0 silent, 1 as in x, 2 neither, 3 both silent"""
    got = []
    for u in range(units):                 # the output is 240 samples late, which the first access unit leaves out
        lo, hi = 1024 * u * nout, 1024 * (u + 1) * nout
        a, b = x[lo:hi], y[lo:hi]
        n = min(len(a), len(b)); a, b = a[:n], b[:n]
        if n < 784 * nout: break
        def st(p, q):
            if not tol: return 3 if not any(p) and not any(q) else 0 if not any(q) else 1 if p == q else 2
            near = lambda z: max(map(abs, z)) < tol
            return 3 if near(p) and near(q) else 0 if near(q) else 1 if near([g - h for g, h in zip(p, q)]) else 2
        got.append([st(a[c::nout], b[c::nout]) for c in range(nout)])
    return got
def run():
    c = Check("D02")
    exe = build_harness("h_session")
    r = rng("D02"); K = c_S14.parts(); O = objects(); U = 8
    samples = corpus.samples()
    g = gen("GateGen", scale(1200, 12000), seed_tag="D02", heap="3g", env={"WILD": "300", "P": str(U)})
    C = []
    for n, sc, p in g:
        sc = [(w, bytes(b)) for w, b in sc]
        if any(len(b) > 1500 for w, b in sc): continue
        obj = n == 1 and r.random() < .6; incfg = False; tol = 0
        if n == 4 or n in (2, 3) and r.random() < .6:
            nout = n - 1; hear = r.choice(("obj", "ch")); tol = 4096
            incfg = sc[0][0] == 0 and r.random() < .5 and len(sc[0][1]) < 500
            cfg, base = mixed(K, O, nout, hear, None, {}, U)
            cfg, st = mixed(K, O, nout, hear, sc[0][1] if incfg else None, dict(sc[1:] if incfg else sc), U)
            if len(cfg) > 700: continue
            hears = [n - 1] * nout if hear == "obj" else list(range(nout))
        elif obj:
            hears = [0] * 12
            m = r.randrange(1, 4); s = samples[m]
            base = mhas.stream(s[0], s[1][:U]); st = insert(base, dict(sc)); nout = (10, 12, 6)[m - 1]
        else:
            down = [r.choice([8, 12, 16, 20]) for _ in range(n)]; nout = n; hears = list(range(n))
            incfg = sc[0][0] == 0 and r.random() < .5 and len(sc[0][1]) < 500
            cfg, base = spk_stream(n, down, K, None, {}, U)
            cfg, st = spk_stream(n, down, K, sc[0][1] if incfg else None, dict(sc[1:] if incfg else sc), U)
            if len(cfg) > 700: continue
        C.append((n, sc, p, int(obj or tol > 0), base, st, nout, int(incfg), hears[:nout], tol))
    def work(k):
        part = C[k:k + 8]
        opt = lambda x: "preset=%d" % x[2] if x[2] >= 0 else ""
        res = pcm(exe, [j for x in part for j in ((x[4], "", U), (x[5], opt(x), U))])
        out = []
        for i, x in enumerate(part):
            (e0, u0), (e1, u1) = res[2 * i], res[2 * i + 1]
            a = array.array("i"); b = array.array("i")
            for u in u0: a.extend(u)
            for u in u1: b.extend(u)
            out.append((x, e0, e1, max(map(abs, a), default=0), states(a, b, x[6], U, x[9])))
        return out
    recs, jobs = [], []
    for part in pmap(work, range(0, len(C), 8)):
        for x, e0, e1, top, got in part:
            if e0 or top > .88 * 2 ** 31: continue
            recs.append(dict(n=x[0], pre=x[2], sc=[[w, list(b)] for w, b in x[1]], err=e1 if e1 in ("", "crash") else err_name(e1.upper()), k=U, got=got, hears=x[8], cf=x[7])); jobs.append(x)
    rej, st, tr = validate("GateTrace", recs)
    c.add(st, tr, len(recs))
    for i, why in rej:
        c.violation("audio scene: %s (%d signals, preset %d)" % (json.dumps(why)[:200], jobs[i][0], jobs[i][2]), {"record": recs[i], "why": why, "stream": jobs[i][5].hex(), "without": jobs[i][4].hex()})
    c.cov["decodes_compared"] = len(recs); c.cov["left_open"] = validate.open
    c.cov["with_preset"] = sum(1 for q in recs if q["pre"] >= 0); c.cov["ended_in_an_error"] = sum(1 for q in recs if q["err"])
    c.cov["channels_silenced"] = sum(g == 0 for q in recs for u in q["got"] for g in u); c.cov["objects"] = sum(j[3] for j in jobs)
    c.samples.append({k: recs[0][k] for k in ("n", "pre", "sc", "got")})
    c.assumptions = ["scenes are generated from the grammar (seeded), in the configuration or in packets before some access units; no interaction data",
                     "signals in no group or in groups that disagree, preset extensions and members out of range in silent groups are left open"]
    return c.finish()
