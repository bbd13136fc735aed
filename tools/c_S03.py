"""S03: amount of audio, channels and word size of every call."""
from outputs import *

def run():
    c = Check("S03")
    r = rng("S03")
    exe = build_harness("h_session")
    runs = []
    for s in corpus.every():
        n = scale(5, 8)
        for o in s.opts: runs.append(Run([(s[0], s[1][:n])], o))
        for o in r.sample(s.opts, min(len(s.opts), scale(3, 8))):
            for x in (16, 24, 32):
                if "pcm" not in o: runs.append(Run([(s[0], s[1][:n])], ("%s pcm=%d" % (o, x)).strip(), must=False))
            runs.append(Run([(s[0], s[1][:n])], ("%s ofs=%d" % (o, r.choice((44100, 48000)))).strip(), must=False))
    # configurations one after the other in one session
    for p in corpus.pairs(r, scale(14, 24)):
        for o in corpus.common(p)[:scale(4, 24)]:
            for _ in range(scale(2, 5)):
                q = [r.choice(p) for _ in range(r.randrange(2, 6))]
                # the decoder resumes a stream where it was when its configuration comes again without a change
                parts, last, at = [], None, 0
                for s in q:
                    at = at if s is last else 0
                    k = r.randrange(0, 4)
                    parts.append((s[0], s[1][at:at + k])); last, at = s, at + k
                runs.append(Run(parts, o, must=False))
    check_outputs(c, exe, runs, ["size"])
    return c.finish()
