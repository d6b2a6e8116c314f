"""Checks of the concurrent containers: controlled schedules of the real code, histories decided by TLC."""
import json, os, random, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import vlib

STUCK = ("panic", "deadlock", "livelock", "hang")


def any_event(ev, n):
    return True


def c02(ev, n):
    return ev[n]["e"] == "quiet"


def c03(ev, n):
    return ev[n]["e"] in STUCK or ev[n]["e"] == "visit" or ev[n]["op"] == "Range"


def c04(ev, n):
    return ev[n]["e"] in ("ret", "visit") + STUCK


def c05(ev, n):
    return ev[n]["e"] in ("cb", "done") + STUCK


def c06(ev, n):
    e = ev[n]
    return (e["e"] == "cb" and e["t"] == 0) or e["e"] == "idle" or (e["e"] in ("ret", "visit", "cb", "done") + STUCK and any(
        x["op"] in ("Close", "Start") for x in ev[:n]))


# Which rejections are violations of the property (the next event that nothing explains), the specification, the
# budget in seconds of the exploration, and the histories per process that TLC looks at.
CONC = {
    "C01": dict(sys="rwmap", spec="RWMap", blame=any_event, race="rwmap", pkgs="rwmap", lens="single"),
    "C02": dict(sys="rwmap", spec="RWMapLen", blame=c02, pkgs="rwmap"),
    "C03": dict(sys="rwmap", spec="RWMap", blame=c03, pkgs="rwmap"),
    "C04": dict(sys="synccache", spec="SyncCache", blame=c04, race="synccache", pkgs="synccache,rwmap"),
    "C05": dict(sys="synccache", spec="SyncCache", blame=c05, pkgs="synccache,rwmap"),
    "C06": dict(sys="synccache", spec="SyncCache", blame=c06, pkgs="synccache,rwmap"),
    "C07": dict(sys="refreshcache", spec="RefreshCache", blame=any_event, seqonly=True),
    "C08": dict(sys="refreshcache", spec="RefreshCache", blame=any_event, race="refreshcache"),
    "C09": dict(sys="refreshcache", spec="RefreshCache", blame=any_event, seqonly=True),
}
TIERS = {"quick": dict(budget=60, cap=2200, bound=2, maxdfs=3000, races=800, rndruns=60, design="quick"),
         "thorough": dict(budget=1500, cap=60000, bound=3, maxdfs=100000, races=12000, rndruns=150, design="thorough")}
SEQBUDGET = 0.7


def show(ev):
    return " ".join("%s%s%s" % ({"call": "[", "ret": "]"}.get(e["e"], e["e"] + ":"), e["t"],
                                (":" + e["op"] if e["op"] else "") + "(" + ",".join(map(str, e["a"])) + ")" + ("=" + ",".join(map(str, e["r"])) if e["e"] == "ret" else "")) for e in ev)


def build_driver(fine):
    d = harness_copy()
    W = workdir()
    ov = os.path.join(W, "ov-fine" if fine else "ov")
    os.makedirs(ov)
    instr = build("./instr", "instr-fine" if fine else "instr")
    run([instr, "-repo", REPO, "-out", ov] + (["-fine"] if fine else []), cwd=d, env=goenv())
    return build("./concdrv", "concdrv-fine" if fine else "concdrv", extra=["-overlay", os.path.join(ov, "overlay.json")], test=True)


def explore(prop, tier, seed, drv, fine, scen=None):
    """Runs the driver processes; returns (statistics, list of raw history lines)."""
    P, T, W = CONC[prop], TIERS[tier], workdir()
    budget = T["budget"] * (SEQBUDGET if P.get("seqonly") else 1)
    jobs = []

    def start(exe, part, parts, extra):
        out = os.path.join(W, "hist-%d" % len(jobs))
        cmd = [exe, "-sys", P["sys"], "-prop", prop, "-out", out, "-seed", str(seed), "-part", str(part), "-parts", str(parts),
               "-budget", "%ds" % budget, "-bound", str(T["bound"]), "-maxdfs", str(T["maxdfs"]), "-rndruns", str(T["rndruns"]), "-cap", str(T["cap"])] + extra
        jobs.append((cmd, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=W)))

    if scen is not None:
        start(drv, 0, 1, ["-scen", scen])
        if fine:
            start(fine, 0, 1, ["-scen", scen])
    elif fine:
        for i in range(6):
            start(drv, i, 6, [])
        for i in range(2):
            start(fine, 100 + i, 2, ["-nosys"])
    else:
        for i in range(8):
            start(drv, i, 8, [])
    st, lines, stuck = {"Ops": {}}, [], 0
    err = None
    for cmd, out, p in jobs:
        try:
            so, se = p.communicate(timeout=budget * 2 + 600)
        except subprocess.TimeoutExpired:
            p.kill()
            err = "driver timeout"
            continue
        if p.returncode not in (0, 10):
            err = "driver exit %d: %s\n%s" % (p.returncode, " ".join(cmd), (so + se)[-3000:])
            continue
        if p.returncode == 10:
            stuck += 1
        else:
            for k, v in json.loads(so.strip().splitlines()[0]).items():
                if isinstance(v, dict):
                    for o, n in v.items():
                        st[k][o] = st[k].get(o, 0) + n
                elif k == "Systematic":
                    st[k] = v
                else:
                    st[k] = st.get(k, 0) + v
        for f in (out, out + ".hang"):
            if os.path.exists(f):
                with open(f) as fh:
                    lines += [x for x in fh if x.endswith("}\n")]
    if err and not lines:
        raise CheckError(err)
    st["stuck"] = stuck
    if err:
        st["driver_error"] = err[:300]
    return st, lines


def decide(prop, lines, limit, cov, seed):
    """TLC decides the histories; raises Violation."""
    P, W = CONC[prop], workdir()
    recs = {}
    for l in lines:
        x = json.loads(l)
        if any(e["e"] == "hang" for e in x["ev"]):
            if P["blame"](x["ev"], len(x["ev"]) - 1):
                raise Violation("an operation never finished: " + show(x["ev"][-30:]), dict(kind="hang", cfg=None, events=x["ev"]))
            continue
        k = json.dumps({"c": x["c"], "ev": x["ev"]})
        if k not in recs:
            recs[k] = (x["sus"], x["scen"], x["ev"])
    keys = sorted(recs)
    random.Random(seed).shuffle(keys)

    def rank(k):
        at, _, ev = recs[k]
        if not at:
            return (2, 0)
        return (0 if P["blame"](ev, min(at, len(ev)) - 1) else 1, len(ev))
    keys.sort(key=rank)
    sus = [k for k in keys if recs[k][0]][:400]
    keys = (sus + [k for k in keys if not recs[k][0]])[:limit]
    n = 4
    chunks = []
    for i in range(n):
        p = os.path.join(W, "chunk%d.ndjson" % i)
        part = keys[i::n]
        with open(p, "w") as f:
            f.write("".join(k + "\n" for k in part))
        chunks.append((p, part))
    rej = []
    with ThreadPoolExecutor(n) as ex:
        for (p, part), (st, bad) in zip(chunks, ex.map(lambda c: validate_nd(P["spec"], c[0], workers=2, timeout=3000), chunks)):
            cov["states"] += st["states"]
            cov["transitions"] += st["transitions"]
            rej += [part[b - 1] for b in bad]
    cov["traces_validated_against_impl"] += len(keys)
    cov["suspicious_for_triage"] = cov.get("suspicious_for_triage", 0) + len(sus)
    cov["rejected"] = cov.get("rejected", 0) + len(rej)
    if len(cov["samples"]) < 3:
        cov["samples"] += [json.loads(k) for k in keys if len(k) < 1500][:3]
    rej.sort(key=rank)
    for k in rej[:12]:
        x = json.loads(k)
        at = progress_nd(P["spec"], x)
        if at < len(x["ev"]) and P["blame"](x["ev"], at):
            raise Violation("no behaviour of %s.tla explains this history past event %d: %s" % (P["spec"], at, show(x["ev"][:at + 1])),
                            dict(kind="conc", cfg=x["c"], events=x["ev"], explained=at, scen=recs[k][1]))
    cov["rejected_for_other_properties"] = len(rej)


def race_stage(prop, tier, seed, cov):
    P = CONC[prop]
    exe = build("./racedrv", "racedrv", extra=["-race", "-gcflags=all=-d=checkptr=0"], env={"CGO_ENABLED": "1"}, test=True)
    e = {"GORACE": "halt_on_error=1 exitcode=66"}
    n = TIERS[tier]["races"]
    p = run([exe, "-sys", P["race"], "-rounds", str(n), "-seed", str(seed), "-test.timeout", "20m"], env=e, ok=range(-64, 256), timeout=1500, cwd=workdir())
    txt = p.stdout + p.stderr
    if p.returncode != 0:
        rep = txt[:6000]
        if "DATA RACE" in txt and (REPO + "/" in txt or prop == "C08"):
            raise Violation("data race: " + " <- ".join(x.strip() for x in rep.splitlines() if REPO + "/" in x)[:600], dict(kind="race", report=rep))
        if "concurrent map" in txt or ("panic:" in txt and REPO + "/" in txt and "test timed out" not in txt):
            raise Violation("free-running execution failed: " + rep[:300], dict(kind="race", report=rep))
        raise CheckError("race stage failed (%d)\n%s" % (p.returncode, rep))
    cov["race_detector_rounds"] = n


# The specifications by themselves: the rwmap algorithm against RWMap.tla, and what SyncCache.tla and RefreshCache.tla promise.
OPS = """P(k) == {<<"Load", <<k>>>>, <<"Swap", <<k, 2>>>>, <<"LoadOrStore", <<k, 3>>>>, <<"LoadAndDelete", <<k>>>>, <<"CompareAndSwap", <<k, 1, 4>>>>,
         <<"CompareAndSwap", <<k, 2, 5>>>>, <<"CompareAndDelete", <<k, 1>>>>, <<"CompareAndDelete", <<k, 2>>>>}
Ops == P(1) \\cup P(2) \\cup {<<"Range", <<>>>>, <<"Clear", <<>>>>}
Ops1 == P(1) \\cup {<<"Range", <<>>>>, <<"Clear", <<>>>>, <<"Swap", <<2, 2>>>>, <<"LoadAndDelete", <<2>>>>}
Two == {[t \\in {1, 2} |-> IF t = 1 THEN <<x>> ELSE <<y>>] : x \\in Ops1, y \\in Ops1}
TwoOne == {[t \\in {1, 2} |-> IF t = 1 THEN <<x, y>> ELSE <<z>>] : x \\in Ops, y \\in Ops, z \\in Ops}
Three == {[t \\in {1, 2, 3} |-> IF t = 1 THEN <<x>> ELSE IF t = 2 THEN <<y>> ELSE <<z>>] : x \\in Ops1, y \\in Ops1, z \\in Ops1}
NextOrOver == Next \\/ Over
"""
SCALL = '{"Load", "Store", "LoadOrStore", "Delete", "LoadAndDelete", "CompareAndDelete", "CompareValueAndDelete", "Clear", "Range"}'


def designs(prop, tier):
    quick = tier == "quick"
    if prop in ("C01", "C02", "C03"):
        inv = {"C01": "Linearizable Tables", "C02": "LenExact Tables", "C03": "Linearizable Tables"}[prop]
        for th, sc in [("{1, 2}", "Two")] if quick else [("{1, 2}", "TwoOne"), ("{1, 2, 3}", "Three")]:
            yield "RWMapImpl", OPS, "INIT Init\nNEXT NextOrOver\nINVARIANTS %s\nCONSTANTS\nThreads = %s\nScenes <- %s\nSafeClear = TRUE\n" % (inv, th, sc)
    elif prop in ("C04", "C05", "C06"):
        inv = {"C04": "Served LiveStays", "C05": "Once OnlyRemoved AllReported", "C06": "LiveStays OnlyRemoved"}[prop]
        for calls, ops, keys in [(2, SCALL, "{1}")] if quick else [(3, SCALL, "{1}"), (3, '{"Load", "Store", "LoadOrStore", "Range"}', "{1, 2}")]:
            yield "SyncDesign", "", "INIT DInit\nNEXT DNext\nINVARIANTS %s\nCONSTANTS\nThreads = {1, 2}\nMaxCalls = %d\nMaxNow = %d\nLives = {0, 1}\nK = %s\nOpset = %s\n" % (
                inv, calls, 1 if quick else 2, keys, ops)
    else:
        inv = {"C07": "Honest Marks OneOutcome", "C08": "Exclusive Honest", "C09": "Kept Marks OneOutcome"}[prop]
        yield "RefreshDesign", "A1 == {<<1, 0>>, <<2, 1>>, <<-1, 2>>, <<0, 1>>}\n", (
            "INIT DInit\nNEXT DNext\nINVARIANTS %s\nCONSTANTS\nThreads = %s\nMaxCalls = %d\nMaxNow = %d\nAges <- A1\nOpset = {\"Get\", \"Refresh\", \"Clear\"}\n" % (
                inv, "{1, 2}", 2 if quick else 4, 2))


def design(prop, tier, cov):
    """Model checks the design; says nothing about the code, so a failure is an error of the check."""
    cov["design"] = []
    for mod, text, cfg in designs(prop, tier):
        rc, out = tlc("---- MODULE MCDesign ----\nEXTENDS %s\n%s====\n" % (mod, text), "MCDesign", cfg, workers=4 if tier == "quick" else 8, timeout=200 if tier == "quick" else 5400,
                      heap="3g" if tier == "quick" else "12g")
        st = tlc_stats(out)
        if rc != 0 or not st["states"]:
            raise CheckError("design model %s failed (%d)\n%s" % (mod, rc, tail(out)))
        cov["states"] += st["states"]
        cov["transitions"] += st["transitions"]
        cov["design"].append(dict(st, spec="spec/%s.tla" % mod))


def check_conc(prop, tier, seed):
    P, T = CONC[prop], TIERS[tier]
    workdir()
    harness_copy()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "spec": "spec/%s.tla" % P["spec"], "samples": []}
    drv = build_driver(False)
    fine = None
    if not P.get("seqonly"):
        try:
            fine = build_driver(True)
        except CheckError as e:
            cov["fine_build"] = str(e)[:300]
    try:
        st, lines = explore(prop, tier, seed, drv, fine)
        for k in ("Scenarios", "Schedules", "Complete", "Histories", "RndScenarios", "Systematic", "Ops", "stuck", "driver_error"):
            if k in st:
                cov[k.lower()] = st[k]
        decide(prop, lines, 8 * T["cap"] + 400, cov, seed)
        if "race" in P:
            race_stage(prop, tier, seed, cov)
        design(prop, tier, cov)
        if "driver_error" in st:
            raise CheckError(st["driver_error"])
    except Violation as v:
        v.cov = cov
        raise
    cov["explanation"] = ("scenarios: programs whose schedules were enumerated with at most %d preemptions each (complete: all of them); schedules: executions of the "
                          "real code; histories: distinct ones per process; traces_validated_against_impl: histories decided by TLC, all suspicious ones and a sample of the rest" % T["bound"])
    return cov


def replay_conc(prop, path):
    m = json.load(open(path))
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    workdir()
    harness_copy()
    if m["kind"] == "race":
        return race_stage(prop, "quick", 1, cov)
    drv = build_driver(False)
    try:
        fine = build_driver(True)
    except CheckError:
        fine = None
    if m.get("scen") is None:
        raise CheckError("no scenario recorded; run the check itself")
    st, lines = explore(prop, "quick", 1, drv, fine, scen=json.dumps(m["scen"]))
    decide(prop, lines, 20000, cov, 1)
