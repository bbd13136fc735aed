"""Shared driver of the parser checks: generated inputs + mutations -> real parser -> TLC."""
from vlib import *

_codes = None
def err_name(code):
    """'00000000' -> ok, otherwise the name of the code in impeghd_error_codes.h"""
    global _codes
    if _codes is None:
        t = {}      # filled before it is shared: this runs in several threads
        for m in re.finditer(r"#define\s+(IA_\w+)\s+\(?(?:\(\w+\))?\s*0x([0-9A-Fa-f]+)\)?", open(os.path.join(REPO, "decoder", "impeghd_error_codes.h")).read()):
            t.setdefault(m.group(2).upper().zfill(8), m.group(1))
        _codes = t
    if int(code, 16) == 0: return "ok"
    return _codes.get(code, "code_" + code)

def mutations(r, b, n):
    """Truncations, bit flips, splices of a byte string."""
    out = []
    L = len(b)
    for _ in range(n):
        m = r.random()
        if m < .4 and L: out.append(b[:r.randrange(L)])
        elif m < .8 and L:
            c = list(b)
            for _ in range(r.choice([1, 1, 2, 4])):
                k = r.randrange(min(L, r.choice([2, 8, 64, L]))); c[k] ^= 1 << r.randrange(8)
            out.append(c)
        elif m < .9 and L:
            k = r.randrange(L); out.append(b[:k] + [r.choice([0, 255])] * r.randrange(1, 4) + b[k:])
        else: out.append([r.randrange(256) for _ in range(r.randrange(0, 24))])
    return out

def classify(q):
    """jmp/code of the harness record -> err"""
    if "crash" in q: return
    q["err"] = "short" if q["jmp"] else err_name(q["code"])
    del q["jmp"], q["code"]

def run_parsers(c, exe, spec, cases, line, env=None, chunks=None, extra=None, known=None):
    """cases: dicts with k, b, a, ...; line(case) -> arguments of the harness command."""
    lines = ["p%d %s %s" % (i, q["k"], line(q)) for i, q in enumerate(cases)]
    got = run_module_par(exe, lines)
    recs = []
    for i, q in enumerate(cases):
        g = got["p%d" % i]; classify(g)
        if extra: extra(q, g)
        rec = {"id": "p%d" % i, "k": q["k"], "b": q["b"], "a": q.get("a", [])}
        rec.update({k: v for k, v in q.items() if k not in rec and not k.startswith("_")})
        rec.update({k: v for k, v in g.items() if k not in ("id", "k")})
        recs.append(rec)
    # big records are spread evenly over the TLC workers
    order = sorted(range(len(recs)), key=lambda i: -len(recs[i]["b"]))
    n = chunks or min(NCPU, max(1, len(recs) // 40))
    order = [i for j in range(n) for i in order[j::n]]
    rej, d, g = validate(spec, [recs[i] for i in order], env=env, chunks=n)
    c.add(d, g, len(recs))
    outc = {}
    for q in recs: outc[q.get("err", "crash")] = outc.get(q.get("err", "crash"), 0) + 1
    c.cov["outcomes"] = outc
    if validate.open: c.cov["left_open"] = validate.open
    for i, why in rej:
        k = order[i]
        c.violation("%s: %s  (input %s)" % (recs[k]["k"], json.dumps(why), hexs(recs[k]["b"])[:200]),
                    {"line": lines[k], "record": recs[k], "why": why}, ident=known(recs[k], why) if known else None)
    c.samples = [l[:300] for l in lines[:3]]
    return recs
