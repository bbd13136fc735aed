"""Streams (configuration, access units) the session checks work with: the repository's samples and the streams of
/verif/corpus, which were built by h_build from configurations generated by ConfigGen.  Every stream carries the decoder
options under which all of its units are known to decode (opts) and the option it needs (base)."""
import mhas, json, os
class Stream(tuple):
    pass
def _mk(cfg, aus, opts, base, name):
    s = Stream((cfg, aus)); s.opts, s.base, s.name = opts, base, name
    return s
SAMPLE_OPTS = ["", "pcm=24", "pcm=32", "effect=2", "tl=96", "effect=3 tl=64 pcm=24"] + ["cicp=%d" % k for k in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20)]
_s = _g = None
def samples():
    global _s
    if _s is None: _s = [_mk(c, a, SAMPLE_OPTS, "", "sample%d" % i) for i, (c, a) in enumerate(mhas.samples().values())]
    return _s
def built():
    global _g
    if _g is None:
        _g = []
        for i, l in enumerate(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "corpus", "streams.jsonl"))):
            d = json.loads(l)
            s = _mk(bytes.fromhex(d["cfg"]), [bytes.fromhex(a) for a in d["aus"]], d["opts"], ("cicp=%d" % d["opt"]) if d["opt"] else "", "built%d" % i)
            s.feat = d["feat"]; _g.append(s)
    return _g
def overload():
    """Built streams whose units were altered until the decoded audio exceeds full scale in both directions."""
    out = []
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "corpus", "overload.jsonl")):
        d = json.loads(l)
        out.append(_mk(bytes.fromhex(d["cfg"]), [bytes.fromhex(a) for a in d["aus"]], [d["base"]], d["base"], "over_" + d["name"]))
    return out
def pairs(r=None, n=8, kind="all"):
    """Lists of streams that are mixed in one behaviour; all of them decode with every option of common(list)."""
    S = samples()
    out = [[S[0], S[1]], [S[2], S[3]], [S[1], S[0]], [S[3], S[2], S[0]]]
    if r is None: return out
    B = built()[:]; r.shuffle(B)
    while len(out) < 4 + n and B:
        a = B.pop()
        p = [a]
        for b in B + S:
            if len(p) < 3 and a.base in common(p + [b]): p.append(b)
        for b in p[1:]:
            if b in B: B.remove(b)
        if len(p) > 1: out.append(p)
    return out
def common(p):
    """Options under which all streams of the list decode."""
    return [o for o in p[0].opts if all(o in s.opts for s in p[1:])]
def every():
    return samples() + built()
def batches(streams, k):
    """Streams grouped so that one validation run covers several of them."""
    return [streams[i:i + k] for i in range(0, len(streams), k)]
