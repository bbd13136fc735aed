"""P01: the bit reader (and the bit writer) against the BitIO machine."""
from vlib import *

def run():
    c = Check("P01")
    exe = build_harness("h_bits")
    mc = tlc("BitIOMC", workers=4)
    if not mc.ok: raise CheckError("BitIOMC: " + mc.out[-1500:])
    c.add(mc.distinct, mc.generated)
    r = rng("P01")
    seqs = []
    # every position x width x bits remaining around the width, three contents
    for off in range(8):
        for w in range(33):
            for extra in (-1, 0, 1, 9):
                nb = (off + w + extra + 7) // 8
                if nb < 0: continue
                for fill in range(3):
                    buf = [255] * nb if fill == 0 else [r.randrange(256) for _ in range(nb)]
                    # land exactly: drop to `off`, then read; and after a show and a skip
                    ops = [["r", [off]], ["s", [w]], ["r", [w]], ["r", [1]]]
                    if fill == 2: ops = [["k", [off]], ["w", [32]], ["r", [w]], ["k", [w]]]
                    seqs.append([buf, ops])
    for sh in ([1, 3, 0], [1, 4, 4], [8, 8, 12], [2, 4, 8], [4, 8, 16], [5, 8, 16], [3, 5, 0], [2, 4, 16], [3, 8, 8]):
        for off in range(8):
            for cut in range(0, 6):
                for m in range(3):
                    nb = cut
                    bits = [0] * off + ([1] * sh[0] if m else [r.randrange(2) for _ in range(sh[0])]) + \
                           ([1] * sh[1] if m == 2 else [r.randrange(2) for _ in range(sh[1])]) + [r.randrange(2) for _ in range(40)]
                    buf = [int("".join(map(str, bits[8*i:8*i+8])), 2) for i in range(nb)]
                    seqs.append([buf, [["r", [off]], ["e", sh], ["r", [3]]]])
    seqs += gen("BitIOGen", scale(400, 6000), simulate=15, seed_tag="P01")
    # long buffers: far skips from every bit position, then exact reads
    for i in range(scale(120, 1500)):
        n = r.choice([40, 300, 520, 1100, 4200, 9000]); buf = [r.randrange(256) for _ in range(n)]
        ops = [["r", [r.randrange(8)]]]
        for _ in range(r.randrange(1, 6)):
            ops.append(["k", [r.choice([r.randrange(8 * n + 9), r.randrange(3000), 8 * r.randrange(n) + r.randrange(8), 4096 + r.randrange(16), r.randrange(300)])]])
            ops.append([r.choice("rs"), [r.randrange(1, 33)]])
        seqs.append([buf, ops])
    lines, recs = [], []
    for i, (buf, ops) in enumerate(seqs):
        s = ",".join(o + ".".join(map(str, x)) if o != "w" else "w" for o, x in ops)
        lines.append("o%d ops %s %s" % (i, hexs(buf), s))
        recs.append({"id": "o%d" % i, "b": buf, "ops": [{"o": o, "x": x} for o, x in ops]})
    for i in range(scale(400, 4000)):
        ops, tot = [], 0
        for _ in range(r.randrange(1, 9)):
            if r.random() < .5:
                n = r.randrange(1, 25); v = r.choice([0, (1 << n) - 1, r.randrange(1 << n)]); ops.append(["b", [v, n]]); tot += n
            else:
                sh = r.choice([[2, 4, 8], [4, 8, 16], [5, 8, 16], [3, 8, 8]])
                m = (1 << sh[0]) - 1 + (1 << sh[1]) - 1 + (1 << sh[2]) - 1
                v = r.choice([0, (1 << sh[0]) - 2, (1 << sh[0]) - 1, (1 << sh[0]), (1 << sh[0]) + (1 << sh[1]) - 3,
                              (1 << sh[0]) + (1 << sh[1]) - 2, (1 << sh[0]) + (1 << sh[1]) - 1, r.randrange(m), m])
                ops.append(["e", [v] + sh]); tot += sum(sh)
        size = (tot + 7) // 8 + 1
        lines.append("w%d wr %d %s" % (i, size, ",".join(o + ".".join(map(str, x)) for o, x in ops)))
        recs.append({"id": "w%d" % i, "size": size, "ops": [{"o": o, "x": x} for o, x in ops]})
    got = run_module_par(exe, lines)
    for q in recs: q.update(got[q["id"]])
    rej, d, g = validate("BitIOTrace", recs)
    c.add(d, g, len(recs))
    for i, why in rej:
        c.violation("bit access %s: %s" % (recs[i]["id"], json.dumps(why)), {"line": lines[i], "record": recs[i], "why": why})
    c.samples = [lines[i] for i in (5, 900, 2500, -3)]
    c.cov["operation_sequences"] = len(recs)
    c.assumptions = ["values written are at most 24 bits wide, values read at most 32"]
    return c.finish()
