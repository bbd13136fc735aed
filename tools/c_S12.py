"""S12: what loudness normalization does to the audio."""
from parsers import *
from drcstream import *
import corpus

def hosts():
    """streams the DRC data is put into: (stream, bits of the configuration, units)"""
    S = corpus.samples() + [b for b in corpus.built() if not any(f.startswith("cfgx") for f in b.feat.split()) and "ext4" not in b.feat.split()]
    S = [s for s in S if fits(s)]
    pos = run_module(build_harness("h_config"), ["%d cfg %s - 0" % (i, s[0].hex()) for i, s in enumerate(S)])
    return [(s, (pos.get(i) or pos.get(str(i)))["pos"]) for i, s in enumerate(S)]
def fits(s):
    try: elements_at(s[0]); return True
    except (ValueError, EOFError): return False
def dmx(dm):
    w = BW(); w.u(1, 2); w.u(len(dm), 5)
    for i, l in dm: w.u(i, 7).u(0, 2).u(l, 6)
    return w.bytes()
CH = {2: 2, 6: 6}
def case(r, g, H, s=None, end=0, opt=None):
    b, lb = g
    if not s: s, end = r.choice(H[:1] * 3 + H)
    u = r.random()
    el, b = (0, b) if u < .12 else (1, b if u < .95 else [])
    lx = 0 if r.random() < .15 else 1
    dm = [] if r.random() < .3 else [[2, 2], [6, 6]]
    ext = ([(2, bytes(lb))] if lx else []) + ([(1, dmx(dm))] if dm else [])
    r.shuffle(ext)
    if r.random() < .15: ext.insert(r.randrange(len(ext) + 1), (0, b"\xa5" * r.randrange(4)))
    tl = r.choice([0, 4, 60, 64, 92, 95, 96, 124, 160, 252])
    eff = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6])
    cicp = int(s.base.split("=")[1]) if s.base else r.choice([0, 0, 2, 6, 1])
    at = r.randrange(8)
    cfg = config(s[0], end, bytes(b) if el else None, ext, at)
    n = 4 if s.name.startswith("sample") else 6
    if opt: cicp, tl, eff = opt
    st = mhas.stream(cfg, [frame(a) for a in s[1][:n]])
    base = "cicp=%d" % cicp if cicp else ""
    q = dict(el=el, b=list(b), lx=lx, lb=list(lb), dm=dm, k="loud",
             p=dict(on=1, eff=eff, ln=1, tl=-32 * (tl >> 2), req=cicp, max=0, dev=0, gmax=32000, meth=0, sys=0, pref=0, grp=[], pre=[], mem=[]))
    return len(cfg) <= 700, q, (st, base, n), (st, (base + " tl=%d" % tl + (" effect=%d" % eff if eff else "")).strip(), n), s.name, 0, (s, end, (cicp, tl, eff))
def switched(r, a, H, g):
    """the case after another configuration of the same audio"""
    s, end, opt = a[6]
    b = case(r, g, H, s, end, opt)
    n = a[2][2]
    st = lambda i: b[i][0] + a[i][0][3 if a[i][0][:3] == bytes.fromhex("c001a5") else 0:]
    return b[0] and a[0], a[1], (st(2), a[2][1], 2 * n + 4), (st(3), a[3][1], 2 * n + 4), a[4] + " after another configuration", n, a[6], b[3]
def run():
    c = Check("S12")
    exe = build_harness("h_session")
    r = rng("S12"); H = hosts()
    n = scale(800, 12000)
    g = gen("LoudGen", n, seed_tag="S12", heap="3g", env={"WILD": "1000000"})
    C = [case(r, x, H) for x in g]
    C = [x for x in C + [switched(r, x, H, r.choice(g)) for x in C[::3]] if x[0]]
    def work(k):
        part = C[k:k + 10]
        res = pcm(exe, [j for x in part for j in (x[2], x[3])])
        first = pcm(exe, [x[7] for x in part if len(x) > 7])[::-1]      # one that is accepted goes before
        out = []
        for i, x in enumerate(part):
            (e0, u0), (e1, u1) = res[2 * i], res[2 * i + 1]
            if len(x) > 7 and first.pop()[0]: continue
            out.append((x, e0, e1, units(u0, u1, x[5]) if not e0 and not e1 else []))
        return out
    recs, jobs = [], []
    for part in pmap(work, range(0, len(C), 10)):
        for x, e0, e1, au in part:
            if e0: continue                     # the stream cannot be decoded at all
            recs.append(dict(x[1], err=e1, au=au)); jobs.append(x)
    rej, st, tr = validate("LoudTrace", recs)
    c.add(st, tr, len(recs))
    for i, why in rej:
        c.violation("loudness normalization: %s (%s, %s)" % (json.dumps(why)[:200], jobs[i][4], jobs[i][3][1]), {"record": recs[i], "why": why, "stream": jobs[i][3][0].hex(), "options": jobs[i][3][1]})
    c.cov["decodes_compared"] = len(recs); c.cov["access_units_compared"] = sum(len(q["au"]) for q in recs)
    c.cov["without_comparison"] = sum(1 for q in recs if not q["au"]); c.cov["failed_decodes"] = sum(1 for q in recs if q["err"]); c.cov["left_open"] = validate.open
    c.samples.append({k: recs[0][k] for k in ("b", "lb", "p", "au")})
    c.assumptions = ["DRC configurations and loudness information are generated from the specification (seeded); their DRC element carries no gains, so that only normalization changes the audio",
                     "units before which the level came close to the peak limiter, and silent ones, are not compared"]
    return c.finish()
def units(a, b, skip=0):
    """per unit <<gain, deviation, headroom>>: the limiter looks ahead into the next unit, so the headroom counts that one as well"""
    if len(a) != len(b): return [[999999, 0, 10 ** 6]]
    out, top = [], 1
    for i, (x, y) in enumerate(zip(a, b)):
        if i < skip: continue
        if len(x) != len(y): return out + [[999999, 0, 10 ** 6]]
        if i + 1 == len(a): break
        px = max(map(abs, x), default=0); py = max(map(abs, y), default=0)
        top = max(top, px, max(map(abs, a[i + 1]), default=0))
        if px > .85 * 2 ** 31: break
        if px > 2000 and (py > 2000 or px > 10 ** 8): out.append(compare(x, y, 2) + [math.floor(20000 * math.log10(.8 * 2 ** 31 / top))])
    return out
