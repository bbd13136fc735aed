"""Sessions against the public API: scripts for h_session, recorded events annotated for SessionTrace."""
import itertools
from vlib import *
import mhas, corpus
from parsers import err_name

class Pool:
    """The dictionary of known byte strings and the streams of one validation group."""
    n = 0
    def __init__(self):
        self.dict, self.idx, self.streams, self.sidx, self.meta, self.opts, self.runs = [], {}, [], {}, [], {}, []
        self.files = {}
    def word(self, b):
        b = bytes(b)
        if b not in self.idx: self.dict.append(b); self.idx[b] = len(self.dict)
        return self.idx[b]
    def stream(self, b, raw=None):
        """raw: None for MHAS, or the list of byte strings handed over one by one"""
        b = bytes(b)
        key = (b, raw is not None)
        if key not in self.sidx:
            self.streams.append(b); self.sidx[key] = len(self.streams)
            at = {}
            if raw is None:
                nxt = []
                for t, l, a, c, e in mhas.split(b):
                    nxt.append(a)
                    if t in (mhas.CFG, mhas.FRAME):
                        for q in nxt: at[q] = self.idx.get(b[c:e], 0)
                        nxt = []
            else:
                p = 0
                for x in raw: at[p] = self.idx.get(bytes(x), 0); p += len(x)
            self.meta.append(at)
            Pool.n += 1; p = tmp("st_%d.bin" % Pool.n)
            open(p, "wb").write(b); self.files[self.sidx[key]] = p
        return self.sidx[key]
    def opt(self, o):
        return self.opts.setdefault(o, len(self.opts) + 1)

class Session:
    """One process: instances k = 0.. driven by a script."""
    def __init__(self, pool): self.pool, self.lines, self.inst, self.used = pool, [], {}, set()
    def create(self, k, sid, opt="", extra="", raw=0):
        if sid not in self.used: self.lines.insert(0, "stream s%d %s" % (sid, self.pool.files[sid])); self.used.add(sid)
        self.lines.append("create %d stream=s%d %s %s %s" % (k, sid, opt, extra, "raw=1 mhas=0" if raw else ""))
        self.inst.setdefault(k, []).append((sid, raw, self.pool.opt(opt))); return self
    def do(self, *l): self.lines += l; return self
    def script(self): return "\n".join(self.lines) + "\n"

_uid, _seq = [0], itertools.count()
def run_sessions(exe, sessions, timeout=120):
    """Run all; returns annotated events per session."""
    res = pmap(lambda s: run_session(exe, s.script(), timeout), sessions)
    out = []
    for s, (ev, rc) in zip(sessions, res):
        cur, base, n, recs = {}, _uid[0], {}, []
        _uid[0] += 100000
        ended = False
        for e in ev:
            t = e.get("e")
            if t == "end": ended = True; continue
            if t == "torn" or "err" not in e: continue
            k = e["k"]
            if t == "create":
                j = n.get(k, 0); n[k] = j + 1; cur[k] = (base + k * 1000 + j,) + s.inst[k][j]
            if t == "delete": u = cur[k][0]; e2 = dict(e)
            else:
                u, sid, raw, opt = cur[k]
                e2 = {x: e[x] for x in e if x not in ("az", "el", "lfe", "eff", "tl", "ln", "cicp", "nspk", "layout", "bin", "sizes")}
                e2["opt"] = opt
                if t != "create":
                    e2.update(s=sid, raw=raw, h=s.pool.meta[sid - 1].get(e["pos"], 0))
                    e2["rep"] = [e.get(x, 0) for x in ("done", "pcm", "eff", "tl", "ln", "cicp", "nspk", "layout", "bin")] + e.get("az", []) + e.get("el", []) + e.get("lfe", []) if t == "init" else []
            e2["k"] = u; e2["err"] = err_name(e["err"].upper())
            recs.append(e2)
        if not ended or rc != 0: recs.append({"e": "crash %s" % rc, "k": base + 99999, "err": "crash"})
        out.append(recs)
    return out

def check_sessions(c, exe, groups, aspects, strict=True, timeout=120, what="session"):
    """groups: list of (pool, [Session...]); each group is validated in one TLC run (one table of histories)."""
    allrec = []
    flat = [(g, s) for g, (p, ss) in enumerate(groups) for s in ss]
    evs = run_sessions(exe, [s for _, s in flat], timeout)
    recs, owner = [[] for _ in groups], [[] for _ in groups]
    for (g, s), r in zip(flat, evs):
        recs[g] += r; owner[g] += [s] * len(r)
    def one(g):
        p = groups[g][0]
        u = next(_seq); d, t = tmp("data_%d.json" % u), tmp("trace_%d.nd" % u)
        json.dump({"streams": [list(b) for b in p.streams], "dict": [list(b) for b in p.dict],
                   "aspects": list(aspects), "strict": 1 if strict else 0}, open(d, "w"))
        write_nd(t, recs[g])
        r = tlc("SessionTrace", env={"TRACE": t, "DATA": d}, timeout=800, heap="3g")
        dn = r.tagged("DONE")
        if not dn or dn[-1][0] != len(recs[g]): raise CheckError("TLC did not finish on group %d:\n%s" % (g, r.err()))
        return r.tagged("REJECT"), r.distinct, r.generated, dn[-1][1]
    res = pmap(one, range(len(groups)))
    hist = 0
    for g, (rej, d, gn, nh) in enumerate(res):
        c.add(d, gn, len(groups[g][1])); hist += nh
        for v in rej:
            i = v[0] - 1; s = owner[g][i]
            c.violation("%s: %s at event %s" % (what, json.dumps(v[1:])[:300], json.dumps(recs[g][i])[:300]),
                        {"script": s.lines[:200], "event": recs[g][i], "why": v[1:], "streams": {k: groups[g][0].streams[k - 1].hex()[:4000] for k in s.used}})
    c.cov["events"] = c.cov.get("events", 0) + sum(map(len, recs))
    c.cov["histories"] = c.cov.get("histories", 0) + hist
    kinds = c.cov.setdefault("returns", {})
    for r in recs:
        for e in r:
            x = e["e"] + " " + e["err"]; kinds[x] = kinds.get(x, 0) + 1
    if len(c.samples) < 4 and flat: c.samples.append(flat[0][1].script()[:500])
    return recs

# ------------------------------------------------------------------ schedules drawn from SessionGen
def ancillary(r, t):
    """An ancillary packet of kind t (0..20)."""
    n = lambda k: bytes(r.randrange(256) for _ in range(k))
    lab = r.choice([0, 1, 1, 2, 3, 17, 257, 258, 1000, 70000, 0xFFFFFFFF])
    kinds = [(0, n(0)), (0, n(1)), (0, n(r.randrange(2, 60))), (0, n(r.choice([300, 2046, 2047, 2048, 2100, 4100, 8200, 9001, 16400]))), (6, b"\xa5"), (7, n(r.randrange(4))),
             (8, n(r.randrange(1, 4))), (9, n(2)), (10, n(4)), (11, n(r.randrange(9))), (12, n(r.randrange(12))), (13, n(r.randrange(9))), (14, n(2)),
             (15, n(3)), (16, n(5)), (17, n(2)), (18, n(r.randrange(20))), (4, n(r.randrange(6))), (5, n(r.randrange(6))),
             (r.choice([23, 24, 30, 127, 128, 200, 255, 256, 261]), n(r.randrange(9))), (r.choice([262, 263, 300, 511, 512, 517]), n(r.randrange(3)))]
    t, b = kinds[t % len(kinds)]
    return mhas.packet(t, b, lab)

FILLS = ["fill=0", "fill=255 pad=255", "fill=165 off=16 pad=90", "fill=-7 off=48 pad=1"]
def schedule(pool, log, cfgs, r, opts="", fills=FILLS, labels=(1,)):
    """A TLC behaviour -> Session. cfgs: list of (config bytes, access units)."""
    s = Session(pool); st = {}
    for act in log:
        k = act[1]
        if act[0] == "create":
            b, bounds, cur, j = b"", [], None, 0
            start = 0
            for q, x in act[2]:
                if q == "x": b += ancillary(r, x); continue
                if q == "c":
                    if x != cur: cur, j = x, 0
                    b += mhas.packet(mhas.CFG, cfgs[x - 1][0], r.choice(labels))
                else:
                    if j >= len(cfgs[cur - 1][1]): continue
                    a = cfgs[cur - 1][1][j]; j += 1
                    b += mhas.packet(mhas.FRAME, a, r.choice(labels))
                bounds.append((start, len(b))); start = len(b)
            if start < len(b): bounds.append((start, len(b)))
            sid = pool.stream(b)
            o = opts if isinstance(opts, str) else r.choice(opts)
            s.create(k, sid, o, fills[act[3] % len(fills)])
            st[k] = [bounds, 0, len(b)]
        elif act[0] == "delete": s.do("delete %d" % k)
        else:
            bo, i, n = st[k][:3]
            if i >= len(bo): continue
            a, e = bo[i]; need = e - a
            if act[2] == "less":
                if need < 2: continue
                s.do("step %d %d" % (k, r.randrange(1, need)), "seek %d %d" % (k, a)); st[k].append("cut")
            else:
                m = {"need": need, "more": need + r.choice([1, 2, 3, 10, 150]), "all": 10**6}[act[2]]
                if "cut" in st[k]: s.do("seek %d %d" % (k, a))     # a damaged decode may end anywhere
                s.do("step %d %d" % (k, m)); st[k][1] += 1
    return s
def schedules(n, r, cfgs, tag, opts=None, multi=2, less=1, epoch=1, anc=1, steps=30, per=None, fills=FILLS, cut=20, labels=(1,)):
    """n behaviours, grouped into pools with one table of histories each. cfgs: list of stream lists; opts: decoder options
    to draw from (None: those under which the streams of the list are known to decode)."""
    logs = gen("SessionGen", n, env=dict(MULTI=multi, CFGS=max(len(c) for c in cfgs), LESS=less, EPOCH=epoch, ANC=anc, STEPS=steps),
               simulate=steps + 10, seed_tag=tag)
    groups = []
    for i, cf in enumerate(cfgs):
        p = Pool()
        for c, aus in cf:
            p.word(c); [p.word(a) for a in aus[:cut]]
        o = (corpus.common(cf)[:1] + r.sample(corpus.common(cf), min(4, len(corpus.common(cf))))) if opts is None else opts
        ss = []
        for l in logs[i::len(cfgs)]:
            nc = max([x for a in l if a[0] == "create" for q, x in a[2] if q == "c"] + [1])
            ss.append(schedule(p, l, [cf[j % len(cf)] for j in range(nc)], r, o, fills, labels))
        groups.append((p, ss))
    return groups

def model(c, spec, cfg=None, workers=8, **kw):
    """Exhaustive TLC run of a model; its own failure is a failure of the machinery."""
    r = tlc(spec, cfg=cfg, workers=workers, heap="6g", **kw)
    if not r.ok: raise CheckError("model %s: %s" % (cfg or spec, r.err()))
    c.add(r.distinct, r.generated, 0)
    c.cov.setdefault("models", {})[cfg or spec] = {"states": r.distinct, "transitions": r.generated}

LAYOUTS = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]
def damaged(r, b, lo=0):
    """A damaged copy of a stream."""
    d = bytearray(b)
    m = r.random()
    if m < .6:
        for _ in range(r.choice([1, 1, 2, 5, 20])):
            k = r.randrange(r.choice([0, lo, lo]), len(d)); d[k] ^= 1 << r.randrange(8)
    elif m < .75:
        k = r.randrange(lo, len(d)); del d[k:k + r.choice([1, 2, 7, 40, 300])]
    elif m < .9:
        k = r.randrange(lo, len(d)); d[k:k] = bytes(r.randrange(256) for _ in range(r.choice([1, 3, 30])))
    else:
        k = r.randrange(lo, len(d)); n = r.choice([1, 4, 20, 200]); d[k:k + n] = bytes([r.choice([0, 255, 0x55])] * n)
    return bytes(d) or b"\0"
