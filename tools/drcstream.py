"""Streams with a DRC extension element and loudness information put in, and what normalization did to their audio."""
import array, math
from vlib import *
import mhas
from mhas import BR, BW

def bits_of(b): return [x >> (7 - i) & 1 for x in b for i in range(8)]
def elements_at(cfg):
    """bit position of numElements in a configuration whose loudspeaker layouts are CICP indices or lists of them"""
    q = BR(cfg); q.u(8)
    if q.u(5) == 31: q.u(24)
    q.u(5)
    def spk():
        t = q.u(2)
        if t == 0: q.u(6)
        elif t == 1:
            for _ in range(q.esc(5, 8, 16) + 1): q.u(7)
        else: raise ValueError
    spk()
    for _ in range(q.u(5) + 1):
        t = q.u(3); q.esc(5, 8, 16)
        if t == 0 and q.u(1): spk()
    return q.p
def element(t, cfg):
    w = BW(); w.u(3, 2); w.esc(t, 4, 8, 16); w.esc(len(cfg), 4, 8, 16); w.u(0, 2)
    for x in cfg: w.u(x, 8)
    return w.bits
def exts(q):
    """configuration extensions [(type, bytes)]"""
    w = BW(); w.u(1 if q else 0, 1)
    if q:
        w.esc(len(q) - 1, 2, 4, 8)
        for t, b in q:
            w.esc(t, 4, 8, 16); w.esc(len(b), 4, 8, 16)
            for x in b: w.u(x, 8)
    return w.bits
# Eight extension elements go in ahead of all others, so that an access unit in which none of them is present grows by
# exactly one byte: the DRC element and seven fill elements
def config(cfg, end, dcfg, ext, at=0):
    """end: number of bits of the configuration, which has no extensions; dcfg None: no DRC element; at: its place"""
    b = bits_of(cfg); p = elements_at(cfg); q = BR(cfg); q.p = p
    n = q.esc(4, 8, 16) + 1; e = q.p; q.u(1)
    w = BW(); w.raw(b[:p]); w.esc(n - 1 + 8, 4, 8, 16); w.raw(b[e:q.p])
    for i in range(8): w.raw(element(4, dcfg) if i == at and dcfg is not None else element(0, b""))
    w.raw(b[q.p:end - 1] + exts(ext))
    return w.bytes()
def frame(au, at=0, payload=None):
    """the access unit with the eight elements: all absent, or the DRC element present with a payload and six others"""
    b = bits_of(au)
    if payload is None: return BW().raw(b[:1] + [0] * 8 + b[1:]).bytes()
    x = BW(); x.u(1, 1); x.u(0, 1); x.u(min(len(payload), 255), 8)
    if len(payload) >= 255: x.u(len(payload) - 253, 16)
    for y in payload: x.u(y, 8)
    # ten bits and seven absent ones: one fill element is given as seven bits of nothing else: present, default length 0
    el = [[0] for _ in range(8)]; el[at] = x.bits
    o = 7 if at != 7 else 6
    return BW().raw(b[:1] + sum(el, []) + b[1:]).bytes()

def pcm(exe, jobs, timeout=120):
    """jobs: list of (stream bytes, options, units) -> [(first error or "", [samples of each unit with audio as array of 32 bit words])]"""
    l, outs = [], []
    for j, (b, opt, n) in enumerate(jobs):
        t = "%d_%d" % (os.getpid(), next(_seq)); s, o = tmp("ds_%s.bin" % t), tmp("dp_%s.pcm" % t)
        open(s, "wb").write(b); open(o, "wb").close(); outs.append((s, o))
        l += ["stream s%d %s" % (j, s), "create %d stream=s%d pcm=32 %s" % (j % 16, j, opt), "pcm %d %s" % (j % 16, o), "run %d %d" % (j % 16, n + 6), "delete %d" % (j % 16)]
    ev, rc = run_session(exe, "\n".join(l) + "\n", timeout)
    res, cur = [], None
    per = {}
    order = []
    for e in ev:
        if e.get("e") == "create": order.append([]); per[e["k"]] = order[-1]
        if "err" in e and e.get("k") in per: per[e["k"]].append(e)
    for j, (s, o) in enumerate(outs):
        data = open(o, "rb").read(); at = 0; units = []; err = "" if j < len(order) else "crash"
        for e in (order[j] if j < len(order) else []):
            if e["err"] != "00000000" and not err: err = e["err"]
            if e["e"] == "exec" or e["e"] == "exe" or e.get("out", 0) > 0:
                if e.get("out", 0) > 0:
                    a = array.array("i"); a.frombytes(data[at:at + e["out"]]); at += e["out"]; units.append(a)
        if rc != 0 and j >= len(order) - 1: err = "crash"
        res.append((err, units))
        os.unlink(s); os.unlink(o)
    return res
_seq = iter(range(1 << 60))
def compare(x, y, full=0.75):
    """gain in milli-dB and the largest deviation from it in parts per million of the peak; [] if the unit says nothing"""
    if len(x) != len(y): return None
    px = max(map(abs, x), default=0); py = max(map(abs, y), default=0)
    if px < 2000 or max(px, py) > full * 2 ** 31: return []
    sxx = sum(a * a for a in x); sxy = sum(a * b for a, b in zip(x, y))
    g = sxy / sxx
    if g <= 0: return [-999999, 0]
    return [round(20000 * math.log10(g)), min(10 ** 6, round(1e6 * max(abs(b - g * a) for a, b in zip(x, y)) / max(py, 1)))]
