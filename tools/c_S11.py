"""S11: output sampling rate."""
from outputs import *

def with_rate(cfg, idx, rate=0):
    """the configuration with another sampling rate field"""
    b = "".join("{:08b}".format(x) for x in cfg)
    old = 5 + (24 if int(b[8:13], 2) == 31 else 0)
    b = b[:8] + "{:05b}".format(idx) + ("{:024b}".format(rate) if idx == 31 else "") + b[8 + old:]
    b += "0" * (-len(b) % 8)
    return bytes(int(b[i:i + 8], 2) for i in range(0, len(b), 8))
RATES = [48000, 44100, 32000, 29400, 24000, 22050, 16000, 14700]
def run():
    c = Check("S11")
    r = rng("S11")
    exe = build_harness("h_session")
    runs = []
    outs = [0] + RATES + [8000, 12000, 64000, 88200, 96000]
    for s in corpus.every():
        for o in outs: runs.append(Run([(s[0], s[1][:scale(4, 8)])], (s.base + " ofs=%d" % o).strip()))
        for o in r.sample(s.opts, min(len(s.opts), scale(2, 12))):
            for f in (44100, 48000): runs.append(Run([(s[0], s[1][:scale(4, 8)])], ("%s ofs=%d" % (o, f)).strip(), must=False))
    # the same streams under every rate a configuration can express
    fields = [(i, 0) for i in range(31)] + [(31, x) for x in RATES] + [(31, x + d) for x in RATES for d in (-1, 1)] + \
             [(31, x) for x in (0, 1, 8000, 11025, 12000, 47999, 48001, 64000, 88200, 96000, 16777215)] + [(31, r.randrange(1 << 24)) for _ in range(scale(6, 60))]
    S = corpus.samples()[:2] + r.sample(corpus.built(), scale(2, 20))
    for s in S:
        for i, x in fields:
            for f in scale([0, r.choice((44100, 48000))], [0, 44100, 48000]):
                runs.append(Run([(with_rate(s[0], i, x), s[1][:2])], (s.base + " ofs=%d" % f).strip(), must=False))
    check_outputs(c, exe, runs, ["rate"])
    return c.finish()
