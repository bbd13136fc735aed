"""Shared machinery: building the code under test, running harnesses, running TLC, evidence, verdicts."""
import glob, hashlib, json, os, re, subprocess, sys, time, random, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
SMOKE = os.path.join(REPO, "smoke_test_suite", "inp")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
NCPU = os.cpu_count() or 4
T0 = time.time()

class CheckError(Exception):
    """The machinery itself failed (no verdict)."""

def thorough(): return TIER == "thorough"
def scale(q, t): return t if TIER == "thorough" else q
def rng(tag=""): return random.Random("%s/%s" % (SEED, tag))

# ------------------------------------------------------------------ building
INC = ["decoder", "decoder/x86_64", "test", "test/mp4"]
CFLAGS = ["-D_X86_", "-O2", "-g", "-w", "-fno-strict-aliasing", "-fwrapv"]

def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b"\0")
    return m.hexdigest()[:24]

def _headers_hash():
    m = hashlib.sha256()
    for d in INC:
        dd = os.path.join(REPO, d)
        if not os.path.isdir(dd): continue
        for f in sorted(os.listdir(dd)):
            if f.endswith(".h"):
                m.update(f.encode()); m.update(open(os.path.join(dd, f), "rb").read())
    return m.hexdigest()

def lib_sources():
    r = []
    for d in ("decoder", "decoder/x86_64"):
        dd = os.path.join(REPO, d)
        r += [os.path.join(dd, f) for f in sorted(os.listdir(dd)) if f.endswith(".c")]
    return r

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_lib(extra=(), exclude=()):
    """Compile the decoder from the working tree into a static library (cached by content)."""
    flags = CFLAGS + list(extra)
    hh = _headers_hash()
    odir = os.path.join(BUILD, "obj"); os.makedirs(odir, exist_ok=True)
    incs = []
    for d in INC: incs += ["-I", os.path.join(REPO, d)]
    jobs = []
    for s in lib_sources():
        if os.path.basename(s) in exclude: continue
        k = _h(hh, open(s, "rb").read(), " ".join(flags), os.path.relpath(s, REPO))
        o = os.path.join(odir, os.path.basename(s)[:-2] + "." + k + ".o")
        jobs.append((s, o))
    def one(j):
        s, o = j
        if os.path.exists(o): return None
        t = o + ".%d.tmp" % os.getpid()
        r = sh(["gcc", "-c"] + flags + incs + [s, "-o", t])
        if r.returncode: return "%s:\n%s" % (s, r.stdout)
        os.rename(t, o); return None
    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs: raise CheckError("library does not compile: " + errs[0][:2000])
    lib = os.path.join(BUILD, "libmpegh." + _h(*[o for _, o in jobs]) + ".a")
    if not os.path.exists(lib):
        t = lib + ".%d.tmp" % os.getpid()
        r = sh(["ar", "rcs", t] + [o for _, o in jobs])
        if r.returncode: raise CheckError(r.stdout)
        os.rename(t, lib)
    return lib

def build_harness(name, extra=(), srcs=(), defs=(), wraps=()):
    lib = build_lib(extra)
    src = os.path.join(HARN, name + ".c")
    more = [os.path.join(REPO, s) for s in srcs]
    dep = b"".join(open(p, "rb").read() for p in [src] + more + sorted(glob.glob(os.path.join(HARN, "*.h"))))
    exe = os.path.join(BUILD, "%s.%s" % (name, _h(dep, lib, _headers_hash(), " ".join(extra), " ".join(defs), " ".join(wraps))))
    if not os.path.exists(exe):
        incs = ["-I", HARN]
        for d in INC: incs += ["-I", os.path.join(REPO, d)]
        t = exe + ".%d.tmp" % os.getpid()
        r = sh(["gcc"] + CFLAGS + list(extra) + list(defs) + incs + [src] + more + [lib, "-lm", "-o", t] +
               ["-Wl,--wrap=" + w for w in wraps])
        if r.returncode: raise CheckError("harness %s does not build: %s" % (name, r.stdout[:3000]))
        os.rename(t, exe)
    return exe

# ------------------------------------------------------------------ scratch
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run.", dir=BUILD)
        import atexit
        if not os.environ.get("VP_KEEP"): atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def tmp(name):
    return os.path.join(scratch(), name)

# ------------------------------------------------------------------ harness runs
def parse_nd(text):
    ev = []
    for l in text.splitlines():
        l = l.strip()
        if not l: continue
        try: ev.append(json.loads(l))
        except ValueError: ev.append({"e": "torn", "text": l[:400]})
    return ev

_n = [0]
def run_session(exe, script, timeout=120):
    """Run one session script; returns (events, returncode or 'timeout')."""
    _n[0] += 1
    tag = "s%d_%d" % (os.getpid(), _n[0])
    sp, op = tmp(tag + ".txt"), tmp(tag + ".nd")
    with open(sp, "w") as f: f.write(script)
    try:
        r = subprocess.run([exe, sp, op], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc = r.returncode
        if rc in (95, 96, 97, 98, 99): raise CheckError("session script error: " + r.stderr.decode()[:500])
    except subprocess.TimeoutExpired:
        rc = "timeout"
    ev = parse_nd(open(op, errors="replace").read()) if os.path.exists(op) else []
    for p in (sp, op):
        if os.path.exists(p) and not os.environ.get("VP_KEEP"): os.unlink(p)
    return ev, rc

def run_module(exe, lines, timeout=300):
    """Run a module harness (see harness/h_common.h) on command lines 'ID KIND ARGS'; returns {id: record}."""
    _n[0] += 1
    tag = "m%d_%d_%d" % (os.getpid(), _n[0], random.getrandbits(30))
    ip, op = tmp(tag + ".in"), tmp(tag + ".out")
    with open(ip, "w") as f: f.write("\n".join(lines) + "\n")
    res, start = {}, 0
    while start < len(lines):
        try:
            r = subprocess.run([exe, ip, op, str(start)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        for q in parse_nd(open(op, errors="replace").read()) if os.path.exists(op) else []:
            if "id" in q: res[q["id"]] = q
        if rc == 0: break
        done = 0
        while done < len(lines) and lines[done].split(" ", 1)[0] in res: done += 1
        if rc != 77 and done < len(lines):      # died without writing the record (alarm, kill, timeout)
            i, k = lines[done].split(" ")[:2]
            res[i] = {"id": i, "k": k, "crash": rc if isinstance(rc, int) else -1}; done += 1
        if os.path.exists(op):
            with open(op, "w") as f:
                for i in lines[:done]: f.write(json.dumps(res[i.split(" ", 1)[0]]) + "\n")
        if done <= start and rc != 77: raise CheckError("harness %s makes no progress (rc %s)" % (exe, rc))
        start = done
    for q in (ip, op):
        if os.path.exists(q) and not os.environ.get("VP_KEEP"): os.unlink(q)
    return res

def run_module_par(exe, lines, timeout=300):
    n = min(NCPU, max(1, len(lines) // 50))
    parts = [lines[i::n] for i in range(n)]
    res = {}
    for r in pmap(lambda p: run_module(exe, p, timeout), parts): res.update(r)
    return res

def gen(spec, n, env=None, seed_tag="", cfg=None, timeout=600, simulate=0, heap="2g"):
    """Behaviours drawn by TLC from a generator specification (in parallel, seeded)."""
    k = min(NCPU, max(1, n // 20))
    def one(i):
        e = dict(env or {}); e["N"] = (n + k - 1) // k
        sd = int(_h(SEED, seed_tag, spec, i)[:7], 16)
        a = ["-seed", str(sd)]
        if simulate: a += ["-simulate", "num=%d" % e["N"], "-depth", str(simulate)]
        r = tlc(spec, cfg=cfg, env=e, args=a, timeout=timeout, heap=heap)
        g = r.tagged("GEN")
        if not g or "Error:" in r.out: raise CheckError("generator %s failed:\n%s" % (spec, r.err()))
        return g, r.generated
    out = pmap(one, range(k))
    return [x for g, _ in out for x in g]

def hexs(b): return bytes(b).hex() or "-"

def pmap(fn, items, workers=None):
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))

# ------------------------------------------------------------------ TLC
class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = "Model checking completed. No error has been found." in out or \
                  ("Finished in" in out and "Error:" not in out and rc == 0)
        self.said = []
        for m in re.finditer(r'^"VP-(\w+) .*"$', out, re.M):
            self.said.append((m.group(1), json.loads(json.loads(m.group(0))[4 + len(m.group(1)):])))
    def err(self):
        i = self.out.find("Error:")
        return self.out[i:i + 2500] if i >= 0 else self.out[-2500:]
    def tagged(self, t): return [v for k, v in self.said if k == t]

def tlc(spec, cfg=None, env=None, workers=1, timeout=600, args=(), heap="3g", deadlock=False):
    """Run TLC on spec/<spec>.tla. env: variables readable through IOEnv."""
    _n[0] += 1
    meta = tmp("tlc_%d_%d" % (os.getpid(), _n[0]))
    e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
    os.makedirs(meta, exist_ok=True)
    e["JAVA_TOOL_OPTIONS"] = "-Xss256m -Djava.io.tmpdir=" + meta
    jar = "/opt/veriftools/tla/tla2tools.jar"
    cp = _classpath()
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-cp", cp, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-nowarning", "-noGenerateSpecTE"]
    if not deadlock: cmd.append("-deadlock")
    cmd += list(args)
    if "-fp" not in args: cmd += ["-fp", str(SEED % 100)]     # TLC draws this at random otherwise, and with it what RandomElement returns
    cmd += ["-config", cfg or (spec + ".cfg"), spec + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % spec)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(r.stdout, r.returncode)

_cp = None
def _classpath():
    global _cp
    if _cp is None:
        t = open(shutil.which("tlc")).read()
        m = re.search(r'-cp\s+"?([^\s"]+)"?', t)
        _cp = m.group(1) if m else "/opt/veriftools/tla/tla2tools.jar"
        if "$" in _cp: _cp = "/opt/veriftools/tla/tla2tools.jar:" + ":".join(
            os.path.join("/opt/veriftools/tla", f) for f in os.listdir("/opt/veriftools/tla") if f.endswith(".jar"))
    return _cp

class Rejection:
    def __init__(self, index, line, expected, spec): self.index, self.line, self.expected, self.spec = index, line, expected, spec

def write_nd(path, recs):
    with open(path, "w") as f:
        for r in recs: f.write(json.dumps(r, separators=(",", ":")) + "\n")

def validate(spec, recs, env=None, chunks=None, timeout=800, heap="2g"):
    """Validate records with a trace specification: it walks the records and says REJECT <<index, ...>> for each
    record it does not explain (and resynchronises); acceptance is TLC's POSTCONDITION.  Returns (rejections, states)."""
    if not recs: return [], 0, 0
    n = chunks or min(NCPU, max(1, len(recs) // 40))
    parts = [recs[i * len(recs) // n:(i + 1) * len(recs) // n] for i in range(n)]
    base = [i * len(recs) // n for i in range(n)]
    def one(i):
        p = tmp("tr_%s_%d_%d.nd" % (spec, i, random.getrandbits(40)))
        write_nd(p, parts[i])
        ee = dict(env or {}); ee["TRACE"] = p
        r = tlc(spec, env=ee, timeout=timeout, heap=heap)
        rej = []
        for v in r.tagged("REJECT"): rej.append((base[i] + v[0] - 1, v[1:]))
        mm = r.tagged("DONE"); validate.open += len(r.tagged("OPEN"))
        if not mm or mm[-1][0] != len(parts[i]):
            raise CheckError("TLC did not finish on %s (chunk %d):\n%s" % (spec, i, r.err()))
        if not r.ok and not rej:
            raise CheckError("TLC error on %s:\n%s" % (spec, r.err()))
        if not os.environ.get("VP_KEEP"): os.unlink(p)
        return rej, r.distinct, r.generated
    res = pmap(one, range(n))
    rej = sorted(x for r in res for x in r[0])
    return rej, sum(r[1] for r in res), sum(r[2] for r in res)

validate.open = 0      # records any outcome of which is accepted

# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.cov = {}; self.assumptions = []; self.viol = []
        self.states = 0; self.transitions = 0; self.traces = 0; self.samples = []
        self.known = load_known(prop); self.known_hit = []
    def add(self, rej_states=0, transitions=0, traces=0):
        self.states += rej_states; self.transitions += transitions; self.traces += traces
    def violation(self, what, replay_data, ident=None):
        """Report (unless it is a listed known finding)."""
        for kf in self.known:
            if ident is not None and kf["ident"] == ident:
                if ident not in self.known_hit:
                    self.known_hit.append(ident); print("KNOWN-FINDING: property=%s %s" % (self.prop, kf["what"]))
                return
        d = os.path.join(ROOT, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%d.json" % (self.prop, len(self.viol)))
        if len(self.viol) < 20:
            json.dump({"property": self.prop, "what": what, "seed": SEED, "data": replay_data}, open(p, "w"), indent=1)
        self.viol.append((what, p))
    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6] or ["(none)"]}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for w, p in self.viol[:10]:
            print("  %s" % w[:600]); print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s: %s  states=%d traces=%d %s wall=%.1fs" % (self.prop, "VIOLATED" if self.viol else "ok", self.states,
              self.traces, {k: v for k, v in self.cov.items() if isinstance(v, (int, bool))}, time.time() - T0))
        return 1 if self.viol else 0

def load_known(prop):
    p = os.path.join(ROOT, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                d = json.loads(l)
                if d["property"] == prop: r.append(d)
    return r
