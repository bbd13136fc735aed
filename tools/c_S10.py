"""S10: parameters of the create call."""
from outputs import *
import itertools

GRID = {"pcm": [0, 1, 8, 15, 16, 17, 24, 31, 32, 33, 48, 64],
        "cicp": [-2147483648, -2, -1] + list(range(0, 24)) + [63, 255, 2147483647],
        "preset": [-128, -2, -1] + list(range(0, 41)) + [63, 127],
        "effect": [-2147483648, -2, -1] + list(range(0, 13)) + [255, 2147483647],
        "tl": [-2147483648, -512, -257, -256, -255, -5, -4, -3, -2, -1] + list(range(0, 270)) + [1024, 2147483647],
        "ofs": [-1, 1, 8000, 44100, 48000, 48001, 96000, 2147483647]}
def run():
    c = Check("S10")
    r = rng("S10")
    exe = build_harness("h_session")
    streams = corpus.every()
    runs = []
    # every value of every parameter by itself, on streams the parameter matters to and on others
    uni = [s for s in streams if s.name.startswith("built") and "cfgx0" in s.feat]
    for k, vs in GRID.items():
        if k == "ofs": pick = r.sample(streams, scale(10, 51))
        else: pick = [streams[0]] + r.sample(uni, min(len(uni), scale(2, 9))) + r.sample(streams, scale(1, 9))
        for s in pick:
            n = scale(3, 6)
            o = "" if k == "cicp" else s.base
            good = {x for x in s.opts}
            if k == "tl" and scale(1, 0): vs = sorted(set(vs[:12] + vs[-4:] + r.sample(vs, 60)))
            for v in vs:
                opt = (o + " %s=%d" % (k, v)).strip()
                runs.append(Run([(s[0], s[1][:n])], opt, must=opt in good or k in ("pcm", "ofs") and o == s.base))
            runs.append(Run([(s[0], s[1][:n])], s.base))
    # several at a time
    for s in r.sample(streams, scale(12, 51)):
        for _ in range(scale(8, 40)):
            o = []
            for k, vs in GRID.items():
                if k == "cicp" and s.base: continue
                if r.random() < .5: o.append("%s=%d" % (k, r.choice(vs)))
            runs.append(Run([(s[0], s[1][:3])], (s.base + " " + " ".join(o)).strip(), must=False))
    check_outputs(c, exe, runs, ["params"], what="parameters")
    return c.finish()
