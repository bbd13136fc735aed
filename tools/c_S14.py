"""S14: DRC gains sent in the stream, in the audio."""
from parsers import *
from drcstream import *
import corpus

# bits from the independency flag to the first extension element of sample 0's access units
AT = [24, 1307, 1220, 1387, 1524, 1609, 1380, 1455]
LAYOUT = {1: 1, 2: 2, 3: 3, 6: 6}
def parts():
    """of sample 0: what a channel takes in the configuration, and in each access unit: (its bits, the rest)"""
    s = corpus.samples()[0]; b = bits_of(s[0]); fr = []
    for a, l in zip(s[1], AT):
        x = bits_of(a); q = BR(a); q.p = l
        if q.u(1):
            n = 0
            if not q.u(1):
                n = q.u(8)
                if n == 255: n = q.u(16) + 253
            q.p += 8 * n
        fr.append((x[0], x[1:l], x[l:q.p]))
    return b[:18], b[45:51], b[51:63], fr
def quieter(x, d):
    """a channel's bits with a global gain (after core mode and noise filling flags) lower by d steps of 1.5 dB"""
    v = int("".join(map(str, x[2:10])), 2) - d
    return x[:2] + [v >> (7 - k) & 1 for k in range(8)] + x[10:]
def build(K, down, at, dcfg, ext, pays, units, fills=()):
    """a stream with sample 0's channel for each of down, that much quieter; the DRC element in place `at` of the elements, its payloads None or bytes;
    fills: contents of a fill element ahead of all others, for each access unit"""
    n = len(down)
    head, sce, fill, fr = K
    w = BW(); w.raw(head); w.u(0, 2).u(LAYOUT[n], 6); w.u(0, 5).u(0, 3).esc(n - 1, 5, 8, 16).u(0, 1)
    w.esc(n + 8 + (1 if fills else 0), 4, 8, 16); w.u(0, 1)
    if fills: w.raw(element(0, b""))          # the channels, DRC, their fill element, seven more
    for i in range(n + 1):
        if i == at: w.raw(element(4, dcfg) if dcfg is not None else element(0, b""))
        if i < n: w.raw(sce)
    w.raw(fill)
    for i in range(7): w.raw(element(0, b""))
    w.raw(exts(ext))
    cfg = w.bytes(); aus = []
    for u in range(units):
        i, c, f = fr[u]; p = pays[u]
        ch = [quieter(c, d) for d in down]
        d = BW()
        if p is None: d.u(0, 1)
        else:
            d.u(1, 1).u(0, 1).u(min(len(p), 255), 8)
            if len(p) >= 255: d.u(len(p) - 253, 16)
            for y in p: d.u(y, 8)
        e = BW()
        if fills:
            e.u(2, 2).u(len(fills[u]), 8)
            for y in fills[u]: e.u(y, 8)
        x = [i] + e.bits + sum(ch[:at], []) + d.bits + sum(ch[at:], []) + f
        k = (-(len(x) + 7)) % 8                # fill elements that are there take nine bits more
        for j in range(7): x += [1, 0] + [0] * 8 if j < k else [0]
        aus.append(BW().raw(x).bytes())
    return cfg, mhas.stream(cfg, aus)
def points(r, x, y, n, units):
    """x, y: samples without and with gains, of all channels"""
    out = []
    full = .8 * 2 ** 31
    L = min(len(x), len(y)) // n
    for c in range(n):
        a, b = x[c::n], y[c::n]
        late = 1024 * units - 240 - L          # samples the output begins late
        for k in range(0, L - 64 * n, 64 * n):
            k += 64 * r.randrange(n)
            w = range(k, min(k + 64, L))
            m = max(w, key=lambda h: abs(a[h]))
            if abs(a[m]) < 2 ** 22: continue
            # the peak limiter looks at what comes, and what it did wears off slowly
            lo, hi = 0, min(L, m + 1024)
            if hi == L: continue
            if TOP(x, lo, hi, n) > full or TOP(y, lo, hi, n) > full: continue
            out.append([c + 1, m + late - 1024, max(-1, min(2 ** 30, round(b[m] / a[m] * 2 ** 20)))])
    return out
_top = {}
def TOP(z, lo, hi, n):
    k = id(z)
    if k not in _top:
        _top.clear(); _top[k] = [max(map(abs, z[j:j + 256 * n]), default=0) for j in range(0, len(z), 256 * n)]
    t = _top[k]
    return max(t[lo // 256:hi // 256 + 1], default=0)

def case(r, g, K):
    b, n, lb, py = g
    units = len(py)
    at = r.randrange(n + 1)
    down = [r.choice([8, 12, 16, 16, 20]) for _ in range(n)]
    lx = 0 if r.random() < .3 else 1
    tl = r.choice([60, 64, 92, 95, 96, 124, 160, 252]); eff = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 6])
    ext = [(2, bytes(lb))] if lx else []
    fills = [bytes(r.choice((0xa5, 0x80, 0x5a, r.randrange(256))) for _ in range(r.randrange(12))) for _ in range(units)] if r.random() < .3 else ()
    cfg, base = build(K, down, at, bytes(b), ext, [None] * units, units, fills)
    cfg, st = build(K, down, at, bytes(b), ext, [bytes(p) for p in py], units, fills)
    opt = "tl=%d" % tl + (" effect=%d" % eff if eff else "")
    q = dict(b=list(b), lx=lx, lb=list(lb), dm=[], n=n, py=[list(p) for p in py],
             p=dict(on=1, eff=eff, ln=1, tl=-32 * (tl >> 2), req=0, max=0, dev=0, gmax=32000, meth=0, sys=0, pref=0, grp=[], pre=[], mem=[]))
    return len(cfg) <= 700, q, (base, opt, units), (st, opt, units), (down, at, bool(fills))
def switched(a, b):
    """case b after case a, in the options of b"""
    st = lambda i: a[3][0] + b[i][0][3 if b[i][0][:3] == bytes.fromhex("c001a5") else 0:]
    return b[0], b[1], (st(2), b[2][1], 20), (st(3), b[3][1], 20), b[4], (a[3][0], b[3][1], 8), a
def run():
    c = Check("S14")
    exe = build_harness("h_session")
    r = rng("S14"); K = parts()
    g = gen("GainGen", scale(300, 6000), seed_tag="S14", heap="3g", env={"WILD": "1000000", "P": "8"})
    C = [x for x in (case(r, x, K) for x in g) if x[0]]
    C += [switched(r.choice(C), x) for x in C[::3]]
    def work(k):
        part = C[k:k + 8]
        res = pcm(exe, [j for x in part for j in (x[2], x[3])])
        first = pcm(exe, [x[5] for x in part if len(x) > 5])[::-1]
        out = []
        for i, x in enumerate(part):
            (e0, u0), (e1, u1) = res[2 * i], res[2 * i + 1]
            if len(x) > 5:
                e, u = first.pop()
                if e or len(u) != 8: continue
                u0, u1 = u0[8:], u1[8:]
            a = [v for u in u0 for v in u]; b = [v for u in u1 for v in u]
            out.append((x, e0, e1, [len(u) for u in u0] == [len(u) for u in u1], points(random.Random(k + i), a, b, x[1]["n"], 8) if not e0 and not e1 else []))
        return out
    recs, jobs = [], []
    for part in pmap(work, range(0, len(C), 8)):
        for x, e0, e1, same, pt in part:
            if e0: continue
            recs.append(dict(x[1], err=e1 or ("" if same else "another amount of audio"), pt=pt)); jobs.append(x)
    rej, st, tr = validate("GainTrace", recs)
    c.add(st, tr, len(recs))
    for i, why in rej:
        c.violation("DRC gains in the audio: %s (levels %s, DRC element %d%s, %s%s)" % (json.dumps(why)[:200], jobs[i][4][0], jobs[i][4][1], " and 1" if jobs[i][4][2] else "", jobs[i][3][1], ", after another configuration" if len(jobs[i]) > 5 else ""),
                    {"record": recs[i], "why": why, "stream": jobs[i][3][0].hex(), "without": jobs[i][2][0].hex(), "options": jobs[i][3][1]})
    c.cov["decodes_compared"] = len(recs); c.cov["samples_compared"] = sum(len(q["pt"]) for q in recs)
    c.cov["with_gains_in_the_audio"] = sum(1 for q in recs if any(abs(p[2] - 2 ** 20) > 2 ** 12 for p in q["pt"]))
    c.cov["failed_decodes"] = sum(1 for q in recs if q["err"]); c.cov["left_open"] = validate.open
    c.samples.append({k: recs[0][k] for k in ("b", "py", "p", "pt")})
    c.assumptions = ["configurations, loudness information and gain payloads are generated from the specification (seeded): single bands, sets for the layout as it is",
                     "samples near which the level came close to the peak limiter, and those before the first node or after the last, are not compared"]
    return c.finish()
