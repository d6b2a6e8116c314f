"""Shared machinery of the checks: building drivers, running TLC, writing evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, signal, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
TLA = "/opt/veriftools/tla"


class CheckError(Exception):
    """The check itself could not run (not a verdict about the code)."""


class Violation(Exception):
    def __init__(self, what, payload):
        super().__init__(what)
        self.what, self.payload = what, payload


_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="verif-")
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
        def stop(sig, frm):
            sys.exit(2)
        signal.signal(signal.SIGTERM, stop)
    return _work


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GONOSUMDB="*", CGO_ENABLED="0")
    return e


def harness_copy():
    """A private copy of the harness module, so that concurrent checks and go tooling never touch /verif."""
    d = os.path.join(workdir(), "harness")
    if not os.path.isdir(d):
        shutil.copytree(HARNESS, d)
        gm = open(os.path.join(d, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(os.path.join(d, "go.mod"), "w").write(gm)
    return d


def build(pkg, name, extra=(), env=None, test=False):
    d = harness_copy()
    out = os.path.join(workdir(), name)
    cmd = ["go", "test", "-c"] if test else ["go", "build"]
    cmd += list(extra) + ["-o", out, pkg]
    e = goenv()
    e.update(env or {})
    p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), (p.stdout + p.stderr)[-4000:]))
    return out


def run(cmd, env=None, timeout=600, ok=(0,), cwd=None, stdout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: %s" % " ".join(map(str, cmd)))
    if p.returncode not in ok:
        raise CheckError("exit %d: %s\n%s" % (p.returncode, " ".join(map(str, cmd)), ((p.stdout or "") + p.stderr)[-4000:]))
    return p


_tlcn = [0]
_lock = threading.Lock()


def tlc(module_text, name, cfg, env=None, workers=1, timeout=800, outfile=None, heap="3g", opts=()):
    """Runs TLC on a generated top module over the committed specifications.  Returns (exit code, output)."""
    with _lock:
        _tlcn[0] += 1
        d = os.path.join(workdir(), "tlc%d" % _tlcn[0])
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    if module_text is not None:
        open(os.path.join(d, name + ".tla"), "w").write(module_text)
    open(os.path.join(d, name + ".cfg"), "w").write(cfg)
    cp = ":".join(os.path.join(TLA, j) for j in sorted(os.listdir(TLA)) if j.endswith(".jar"))
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss32m", "-cp", cp, "tlc2.TLC",
           "-config", name + ".cfg", "-metadir", os.path.join(d, "st"), "-workers", str(workers), "-noGenerateSpecTE", *opts, name + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    o = outfile or os.path.join(d, "out.txt")
    with open(o, "w") as fh:
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on " + name)
    return p.returncode, o


def tlc_stats(path):
    g = t = dep = 0
    with open(path, errors="replace") as f:
        f.seek(max(0, os.path.getsize(path) - 20000))
        txt = f.read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
    if m:
        g, t = int(m.group(1)), int(m.group(2))
    m = re.search(r"depth of the complete state graph search is (\d+)", txt)
    if m:
        dep = int(m.group(1))
    return {"transitions": g, "states": t, "depth": dep}


def consts(c):
    def v(x):
        if isinstance(x, (list, tuple, set)):
            return "{" + ", ".join(map(str, x)) + "}"
        return str(x)
    return "".join("CONSTANT %s = %s\n" % (k, v(x)) for k, x in c.items())


GEN = """---- MODULE MCGen ----
EXTENDS Gen%s, Json
VARIABLE hist
GInit == GenCfg /\\ Init0 /\\ hist = <<>>
GNext == \\E x \\in GenOps : Do(x[1], x[2], x[3]) /\\ hist' = Append(hist, <<x[1], x[2]>>)
GSpec == GInit /\\ [][GNext]_<<vars, hist>>
\\* a state constraint is evaluated on every generated successor, so this prints one behaviour per transition
Emit == hist # <<>> => PrintT(ToJson([c |-> cfg, h |-> hist, r |-> ret, s |-> Proj]))
====
"""


def generate(spec, constants, depth=None, ginv=False, timeout=800):
    """Model checks Gen<spec> and emits one behaviour per transition of its state graph."""
    cfg = "SPECIFICATION GSpec\nVIEW View\nINVARIANT Inv\n" + ("INVARIANT %s\n" % ("GInv" if ginv is True else ginv) if ginv else "") + \
        "CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" + consts(constants)
    rc, out = tlc(GEN % spec, "MCGen", cfg, workers=1, timeout=timeout)
    st = tlc_stats(out)
    if rc != 0 or st["states"] == 0:
        raise CheckError("model checking Gen%s failed (%d):\n%s" % (spec, rc, tail(out)))
    return out, st


TRACE = """---- MODULE MCTrace ----
EXTENDS %s, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
TInit == tr \\in 1..Len(Traces) /\\ cfg = Traces[tr].c /\\ Init0 /\\ l = 0
TObs == IF l = 0 THEN <<<<-12345>>>> ELSE Traces[tr].ev[l].s     \\* the state observed after event l, unless nothing was looked at
Seen == IF TObs = <<<<-12345>>>> THEN TRUE ELSE ProjOK(TObs)
TStep == /\\ l < Len(Traces[tr].ev) /\\ Seen
         /\\ \\E e \\in {Traces[tr].ev[l + 1]} : Do(e.op, e.a, e.r) /\\ ret' = e.r
         /\\ l' = l + 1 /\\ UNCHANGED tr
TEnd == l = Len(Traces[tr].ev) /\\ Seen /\\ UNCHANGED <<vars, tr, l>>
TSpec == TInit /\\ [][TStep \\/ TEnd]_<<vars, tr, l>>
====
"""


def tail(p, n=3000):
    with open(p, errors="replace") as f:
        f.seek(max(0, os.path.getsize(p) - n))
        return f.read()


def validate(spec, tracefile, workers=4, timeout=800, module=None, inv=False):
    """Validates recorded traces; returns (stats, None) or (stats, (trace index, accepted events))."""
    if os.path.getsize(tracefile) == 0:
        return {"states": 0, "transitions": 0}, None
    cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK TRUE\n" + ("INVARIANT Inv\n" if inv else "")
    rc, out = tlc(module or TRACE % spec, "MCTrace", cfg, env={"TRACES": tracefile}, workers=workers, timeout=timeout, heap="6g")
    st = tlc_stats(out)
    if rc == 0:
        return st, None
    if rc == 11:  # deadlock: some trace has no continuation
        tr = l = None
        with open(out, errors="replace") as f:
            for line in f:
                m = re.match(r"(?:/\\ )?tr = (\d+)", line.strip())
                if m:
                    tr = int(m.group(1))
                m = re.match(r"(?:/\\ )?l = (\d+)", line.strip())
                if m:
                    l = int(m.group(1))
        if tr is None:
            raise CheckError("cannot parse TLC counterexample\n" + tail(out))
        return st, (tr, l)
    raise CheckError("TLC failed (%d) validating against %s:\n%s" % (rc, spec, tail(out)))


NDTRACE = """---- MODULE MCTrace ----
EXTENDS %s, Json, IOUtils, TLC
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
TInit == tr \\in 1..Len(Traces) /\\ cfg = Traces[tr].c /\\ Init0 /\\ l = 0
E == Traces[tr].ev[l + 1]
TNext == /\\ l < Len(Traces[tr].ev) /\\ UNCHANGED tr
         /\\ \\/ Step(E) /\\ l' = l + 1
            \\/ Silent(E) /\\ l' = l
TSpec == TInit /\\ [][TNext]_<<vars, tr, l>>
Accept == l = Len(Traces[tr].ev) => PrintT(<<"ACC", tr>>)
Where == PrintT(<<"AT", l>>)
====
"""


def validate_nd(spec, tracefile, workers=2, timeout=800, inv=None):
    """Validates histories against a specification with unobserved steps: a history is accepted when some behaviour
    explains all of it.  Returns (stats, list of rejected 1-based indices)."""
    n = sum(1 for _ in open(tracefile))
    if n == 0:
        return {"states": 0, "transitions": 0, "depth": 0}, []
    cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nCONSTRAINT Accept\n" + ("INVARIANT %s\n" % inv if inv else "")
    rc, out = tlc(NDTRACE % spec, "MCTrace", cfg, env={"TRACES": tracefile}, workers=workers, timeout=timeout, heap="4g")
    if rc != 0:
        raise CheckError("TLC failed (%d) validating against %s:\n%s" % (rc, spec, tail(out)))
    acc = set()
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('<<"ACC"'):
                acc.add(int(line[8:].strip().rstrip(">")))
    return tlc_stats(out), [i for i in range(1, n + 1) if i not in acc]


def progress_nd(spec, trace):
    """Number of events of one history that some behaviour explains."""
    p = os.path.join(workdir(), "one%d.ndjson" % _tlcn[0])
    open(p, "w").write(json.dumps(trace) + "\n")
    rc, out = tlc(NDTRACE % spec, "MCTrace", "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nCONSTRAINT Where\n", env={"TRACES": p}, workers=1)
    if rc != 0:
        raise CheckError("TLC failed (%d)\n%s" % (rc, tail(out)))
    best = 0
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('<<"AT"'):
                best = max(best, int(line[7:].strip().rstrip(">")))
    return best

def line_of(path, n):
    with open(path) as f:
        for i, s in enumerate(f, 1):
            if i == n:
                return json.loads(s)


def sample_lines(path, k, maxlen=1200):
    r = []
    with open(path) as f:
        for s in f:
            if len(s) < maxlen:
                r.append(json.loads(s))
                if len(r) >= k:
                    break
    return r


def save_replay(prop, payload):
    os.makedirs(OUT, exist_ok=True)
    p = os.path.join(OUT, "replay-%s-%d.json" % (prop, os.getpid()))
    with open(p, "w") as f:
        json.dump(payload, f, indent=1)
    return p


def evidence(prop, tier, seed, level, coverage, wall, violations, assumptions=()):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        f.write("\n")


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    return [x.strip() for x in open(p)] if os.path.exists(p) else []
