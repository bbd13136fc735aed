"""Sessions whose reports are validated by OutputTrace: the parameters in force, loudspeakers, rate and amount of audio."""
from vlib import *
import mhas, corpus
from parsers import err_name

def req(opt):
    """option string of h_session -> request record of Output.tla"""
    q = dict(pcm=16, cicp=0, preset=-1, effect=0, tl=[], ofs=0)
    for w in opt.split():
        k, v = w.split("=")
        if k == "tl": q[k] = [int(v)]
        elif k in q: q[k] = int(v)
    return q

class Run:
    """One instance on one stream: a list of (configuration, access units) played one after the other under one option string."""
    def __init__(self, parts, opt, must=True, tail=""):
        self.parts, self.opt, self.must, self.tail = parts, opt, must, tail
        self.b, self.at, self.units = b"", {}, set()
        for cfg, aus in parts:
            self.at[len(self.b)] = cfg; self.b += mhas.packet(mhas.CFG, cfg, 1)
            for a in aus: self.units.add(len(self.b)); self.b += mhas.packet(mhas.FRAME, a, 1)

def check_outputs(c, exe, runs, aspects, group=4, what="session"):
    """Runs are grouped, several instances to a process and several processes to a TLC run."""
    cfgs, idx, streams = [], {}, {}
    for r in runs:
        for cfg, _ in r.parts:
            if cfg not in idx: cfgs.append(cfg); idx[cfg] = len(cfgs)
        if r.b not in streams:
            streams[r.b] = len(streams) + 1
            open(tmp("os_%d.bin" % streams[r.b]), "wb").write(r.b)
    # sessions of one stream stay together
    order = sorted(range(len(runs)), key=lambda i: streams[runs[i].b])
    def play(g):
        l = []
        for j, i in enumerate(g):
            r = runs[i]; s = streams[r.b]
            l.append("stream s%d %s" % (s, tmp("os_%d.bin" % s)))
            l += ["create %d stream=s%d %s" % (j, s, r.opt), "run %d %d" % (j, sum(len(a) for _, a in r.parts) + 12), "delete %d" % j]
        ev, rc = run_session(exe, "\n".join(l) + "\n", 300)
        return l, ev, rc
    gs = [order[i:i + group] for i in range(0, len(order), group)]
    recs, own = [], []
    for g, (l, ev, rc) in zip(gs, pmap(play, gs)):
        end, last = False, 0
        for e in ev:
            if e.get("e") == "end": end = True; continue
            if e.get("e") == "torn" or "err" not in e: continue
            last = e["k"]; i = g[last]; r = runs[i]
            q = {"e": e["e"], "k": i + 1, "s": streams[r.b], "err": err_name(e["err"].upper())}
            if e["e"] == "create": q.update(req=req(r.opt), pcm=e["pcm"])
            elif e["e"] != "delete":
                took = [p for p in r.at if e["pos"] <= p < e["pos"] + e["cons"]]
                # a configuration in mid-stream restarts the decoder only if it is another one
                new = [p for p in took if e["e"] == "init" or idx[r.at[p]] != idx[r.at[max(x for x in r.at if x < p)]]]
                q.update(pos=e["pos"], cfg=idx[r.at[new[0]]] if new else 0, au=1 if any(e["pos"] <= x < e["pos"] + e["cons"] for x in r.units) else 0, must=1 if r.must else 0,
                         out=e["out"], dig=e["dig"], ch=e["ch"], fs=e["fs"], pcm=e["pcm"], eff=e["eff"], tl=e["tl"], ln=e["ln"],
                         cicp=e["cicp"], nspk=e["nspk"], layout=e["layout"], bin=e["bin"], az=e.get("az", []), el=e.get("el", []), lfe=e.get("lfe", []))
            recs.append(q); own.append(i)
        if not end or rc != 0: recs.append({"e": "crash %s" % rc, "k": g[last] + 1, "err": "crash"}); own.append(g[last])
    # split between streams, so that every stream is in one validation run
    n = min(NCPU, max(1, len(recs) // 300))
    b = bytearray(); parts, cur, last = [], [], None
    for j, q in enumerate(recs):
        if len(cur) > len(recs) / n and q.get("s") != last and q["e"] == "create": parts.append(cur); cur = []
        cur.append(j); last = q.get("s", last)
    if cur: parts.append(cur)
    data = tmp("out_%d.json" % os.getpid()) + str(len(c.cov))
    json.dump({"cfgs": [list(x) for x in cfgs], "aspects": list(aspects)}, open(data, "w"))
    def one(k):
        t = tmp("otrace_%d.nd" % k); write_nd(t, [recs[j] for j in parts[k]])
        r = tlc("OutputTrace", env={"TRACE": t, "DATA": data}, timeout=800, heap="3g")
        d = r.tagged("DONE")
        if not d or d[-1][0] != len(parts[k]): raise CheckError("TLC did not finish:\n%s" % r.err())
        return r
    for k, r in enumerate(pmap(one, range(len(parts)))):
        c.add(r.distinct, r.generated, 0)
        for v in r.tagged("REJECT"):
            j = parts[k][v[0] - 1]; u = runs[own[j]]
            c.violation("%s: %s at %s %s" % (what, json.dumps(v[1:])[:300], recs[j]["e"], u.opt),
                        {"options": u.opt, "stream": u.b.hex()[:200000], "event": recs[j], "why": v[1:]})
    c.add(0, 0, len(runs))
    c.cov["sessions"] = c.cov.get("sessions", 0) + len(runs)
    c.cov["events"] = c.cov.get("events", 0) + len(recs)
    o = c.cov.setdefault("returns", {})
    for q in recs: x = q["e"] + " " + q["err"]; o[x] = o.get(x, 0) + 1
    if runs and len(c.samples) < 4: c.samples.append({"options": runs[0].opt, "stream": runs[0].b.hex()[:200]})
    return recs
