"""MHAS packets in Python: splitting and building streams for the session checks (the specification re-derives everything)."""
import os
from vlib import SMOKE
FILL, CFG, FRAME, ASI, SYNC, SYNCGAP, MARKER, CRC16, CRC32, DESC, USER, LOUDDRC, BUFINFO, GCRC16, GCRC32, AUDIOTRUNC, GENDATA, EARCON, PCMCFG, PCMDATA, LOUD = \
    0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22

class BR:
    def __init__(s, b): s.b, s.p, s.n = b, 0, 8 * len(b)
    def u(s, n):
        if s.p + n > s.n: raise EOFError
        v = 0
        for i in range(s.p, s.p + n): v = v * 2 + (s.b[i >> 3] >> (7 - (i & 7)) & 1)
        s.p += n; return v
    def esc(s, a, b, c):
        v = s.u(a)
        if v == (1 << a) - 1:
            w = s.u(b); v += w
            if w == (1 << b) - 1: v += s.u(c)
        return v

class BW:
    def __init__(s): s.bits = []
    def u(s, v, n):
        s.bits += [(v >> (n - 1 - i)) & 1 for i in range(n)]; return s
    def esc(s, v, a, b, c):
        m1, m2 = (1 << a) - 1, (1 << b) - 1
        if v < m1: s.u(v, a)
        elif v < m1 + m2: s.u(m1, a).u(v - m1, b)
        else: s.u(m1, a).u(m2, b).u(v - m1 - m2, c)
        return s
    def raw(s, bits): s.bits += bits; return s
    def bytes(s):
        b = s.bits + [0] * (-len(s.bits) % 8)
        return bytes(sum(b[i + j] << (7 - j) for j in range(8)) for i in range(0, len(b), 8))

def header(t, label, n):
    w = BW(); w.esc(t, 3, 8, 8); w.esc(label, 2, 8, 32); w.esc(n, 11, 24, 24)
    return w
def packet(t, payload, label=1):
    """A packet; headers whose coding is not a whole number of bytes cannot occur (all escape forms are byte aligned)."""
    return header(t, label, len(payload)).bytes() + bytes(payload)
def split(b):
    """[(type, label, start of packet, start of payload, end)]"""
    r, p = [], 0
    while p < len(b):
        q = BR(b[p:p + 32])
        try: t = q.esc(3, 8, 8); l = q.esc(2, 8, 32); n = q.esc(11, 24, 24)
        except EOFError: break
        h = q.p // 8
        if p + h + n > len(b): break
        r.append((t, l, p, p + h, p + h + n)); p += h + n
    return r
def load(name):
    b = open(os.path.join(SMOKE, name), "rb").read()
    cfg, aus = None, []
    for t, l, a, c, e in split(b):
        if t == CFG: cfg = b[c:e]
        elif t == FRAME: aus.append(b[c:e])
    return cfg, aus
def samples():
    """name -> (config, access units) of the repository's sample streams"""
    return {f[:-5]: load(f) for f in sorted(os.listdir(SMOKE)) if f.endswith(".mhas")}
SYNCPKT = packet(SYNC, b"\xa5", 0)
def stream(cfg, aus, label=1):
    return SYNCPKT + packet(CFG, cfg, label) + b"".join(packet(FRAME, a, label) for a in aus)
