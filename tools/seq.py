"""Checks of the sequential containers: specification <-> code in both directions."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *

# gen: instances of Gen<spec> explored exhaustively and replayed; script: only histories are generated, the driver's
# recording is validated; rnd: (traces, max length) of random executions validated against the specification
SEQ = {
    "C10": dict(spec="DLList", quick=dict(gen=[dict(P=10, MaxN=4, NL=1), dict(P=10, MaxN=3, NL=2)], rnd=(3600, 40)),
                thorough=dict(gen=[dict(P=10, MaxN=5, NL=1), dict(P=10, MaxN=4, NL=2)], rnd=(20000, 60))),
    "C11": dict(spec="DLList", quick=dict(gen=[dict(P=11, MaxN=3, NL=2)], rnd=(4500, 40)),
                thorough=dict(gen=[dict(P=11, MaxN=4, NL=2), dict(P=11, MaxN=3, NL=3)], rnd=(20000, 60))),
    "C12": dict(spec="DLList", quick=dict(gen=[dict(P=12, MaxN=7, NL=1), dict(P=12, MaxN=5, NL=2)], rnd=(4500, 30)),
                thorough=dict(gen=[dict(P=12, MaxN=9, NL=1), dict(P=12, MaxN=6, NL=2)], rnd=(15000, 40))),
    "C13": dict(spec="LHashMap", quick=dict(gen=[dict(NK=3, NV=2), dict(NK=4, NV=1)], rnd=(6000, 60)),
                thorough=dict(gen=[dict(NK=4, NV=2), dict(NK=5, NV=1)], rnd=(30000, 80))),
    "C14": dict(spec="Ring", ginv=True, quick=dict(gen=[dict(MaxN=4, MaxStep=5)], rnd=(4500, 40)),
                thorough=dict(gen=[dict(MaxN=5, MaxStep=7)], rnd=(20000, 60))),
    "C15": dict(spec="Heap", quick=dict(gen=[dict(MaxN=5, NV=4)], rnd=(7500, 40)),
                thorough=dict(gen=[dict(MaxN=7, NV=4)], rnd=(40000, 60))),
    "C16": dict(spec="PQueue", quick=dict(gen=[dict(MaxN=5, NP=7)], rnd=(9000, 50)),
                thorough=dict(gen=[dict(MaxN=7, NP=9)], rnd=(40000, 80))),
    "C17": dict(spec="Vec", quick=dict(gen=[dict(P=17, MaxN=3, NV=2, Kinds=[0])], rnd=(7500, 40)),
                thorough=dict(gen=[dict(P=17, MaxN=3, NV=3, Kinds=[0]), dict(P=17, MaxN=4, NV=2, Kinds=[0])], rnd=(40000, 60))),
    "C18": dict(spec="Vec", quick=dict(gen=[dict(P=18, MaxN=3, NV=3, Kinds=[0, 3, 4, 5, 8])], rnd=(9000, 30)),
                thorough=dict(gen=[dict(P=18, MaxN=5, NV=3, Kinds=list(range(25)))], rnd=(40000, 40))),
    "C19": dict(spec="Vec", quick=dict(gen=[dict(P=19, MaxN=2, NV=2, Kinds=[0])], rnd=(7500, 40)),
                thorough=dict(gen=[dict(P=19, MaxN=3, NV=2, Kinds=[0])], rnd=(40000, 60))),
    "C20": dict(spec="SetSpec", quick=dict(gen=[dict(NE=2, NR=3), dict(NE=3, NR=2)], rnd=(7500, 40)),
                thorough=dict(gen=[dict(NE=3, NR=3), dict(NE=5, NR=2)], rnd=(40000, 60))),
    "C21": dict(spec="GenMapSpec", quick=dict(gen=[dict(NK=2, NV=2)], rnd=(7500, 40)),
                thorough=dict(gen=[dict(NK=3, NV=2)], rnd=(40000, 60))),
    "C22": dict(spec="HashRing", design=dict(quick=dict(NM=3, R=2, P=4), thorough=dict(NM=3, R=2, P=6)),
                quick=dict(script=[dict(P=22, NM=4)], rnd=(2100, 30)), thorough=dict(script=[dict(P=22, NM=6)], rnd=(10000, 40))),
    "C23": dict(spec="HashRing", design=dict(quick=dict(NM=3, R=2, P=4), thorough=dict(NM=3, R=2, P=6)),
                quick=dict(script=[dict(P=23, NM=4)], rnd=(2100, 30)), thorough=dict(script=[dict(P=23, NM=6)], rnd=(10000, 40))),
    "C24": dict(spec="Tree", ginv=True, quick=dict(gen=[dict(P=24, MaxN=4, MaxB=0)], rnd=(7500, 40)),
                thorough=dict(gen=[dict(P=24, MaxN=5, MaxB=0)], rnd=(40000, 60))),
    "C25": dict(spec="Tree", ginv="QInv", quick=dict(gen=[dict(P=25, MaxN=5, MaxB=20), dict(P=26, MaxN=4, MaxB=0)], rnd=(900, 20)),
                thorough=dict(gen=[dict(P=25, MaxN=6, MaxB=64), dict(P=26, MaxN=5, MaxB=0)], rnd=(5000, 24))),
}

# random executions on large containers: (traces, max length)
BIG = {"C10": (10, 120), "C11": (12, 120), "C12": (20, 50), "C13": (20, 160), "C14": (40, 80), "C15": (30, 40), "C16": (30, 400),
       "C17": (50, 40), "C18": (16, 30), "C19": (30, 40), "C20": (30, 40), "C21": (16, 120), "C22": (40, 30), "C23": (40, 30),
       "C24": (30, 120), "C25": (8, 26)}
# and on very large ones
HUGE = {"C10": (4, 60), "C11": (4, 60), "C12": (6, 30), "C13": (8, 50), "C14": (8, 60), "C15": (4, 14), "C16": (2, 1600),
        "C17": (12, 30), "C18": (10, 16), "C19": (6, 25), "C20": (12, 40), "C21": (6, 40), "C22": (12, 30), "C23": (12, 30),
        "C24": (4, 200), "C25": (4, 50)}


def validate_traces(prop, spec, path, workers):
    st, bad = validate(spec, path, workers=workers)
    if bad:
        t = line_of(path, bad[0])
        ev = t["ev"]
        raise Violation("recorded execution is not a behaviour of %s: stuck after %d events (state after the last of them or next event rejected): %s" % (spec, bad[1], json.dumps(ev[max(bad[1] - 1, 0):bad[1] + 1])[:400]),
                        {"kind": "trace", "spec": spec, "cfg": t["c"], "stuck_after": bad[1], "events": ev[:bad[1] + 1]})
    return st


def check_seq(prop, tier, seed):
    P = SEQ[prop]
    T = P[tier]
    spec = P["spec"]
    drv = build("./seqdrv", "seqdrv")
    W = workdir()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "spec": "spec/%s.tla" % spec,
           "replayed_behaviours": 0, "replayed_steps": 0, "validated_events": 0, "trace_states": 0, "samples": [],
           "generated_transitions_by_op": {}, "validated_events_by_op": {}}

    def add(d, e):
        for k, v in e.items():
            d[k] = d.get(k, 0) + v

    def job_gen(i, c):
        out, st = generate(spec, c, ginv=P.get("ginv", False), timeout=800 if tier == "quick" else 7200)
        mis = os.path.join(W, "mis%d.json" % i)
        p = run([drv, "-prop", prop, "-mode", "replay", "-in", out, "-out", mis], ok=(0, 10), timeout=7200)
        if p.returncode == 10:
            m = json.load(open(mis))
            raise Violation("generated behaviour disagrees with the code: %s" % json.dumps(m["history"][-1]), dict(m, kind="replay", spec=spec, constants=c))
        r = json.loads(p.stdout)
        return ("gen", c, st, r)

    def job_script(i, c):
        out, st = generate(spec, c, timeout=800 if tier == "quick" else 7200)
        tr = os.path.join(W, "script%d.ndjson" % i)
        r = json.loads(run([drv, "-prop", prop, "-mode", "script", "-in", out, "-out", tr], timeout=3600).stdout)
        st2 = validate_traces(prop, spec, tr, 3)
        return ("script", c, st, r, st2, tr)

    def job_rnd(n, length, sd, big=0):
        tr = os.path.join(W, "%s%d.ndjson" % (("rnd", "big", "huge")[int(big)], sd))
        r = json.loads(run([drv, "-prop", prop, "-mode", "random", "-n", str(n), "-len", str(length), "-seed", str(sd), "-out", tr] + (["-big", str(int(big))] if big else []), timeout=3600).stdout)
        st2 = validate_traces(prop, spec, tr, 4)
        return ("rnd", n, None, r, st2, tr)

    def job_design():
        c = P["design"][tier]
        rc, out = tlc(None, "HashRingDesign", "SPECIFICATION Spec\nINVARIANTS OnlyMembers SetDetermined\nPROPERTY MinimalMoves\nCHECK_DEADLOCK FALSE\n" + consts(c), workers=3, timeout=7200)
        if rc != 0:
            raise CheckError("design model failed\n" + tail(out))
        return ("design", c, tlc_stats(out))

    jobs = []
    with ThreadPoolExecutor(5) as ex:
        for i, c in enumerate(T.get("gen", [])):
            jobs.append(ex.submit(job_gen, i, c))
        for i, c in enumerate(T.get("script", [])):
            jobs.append(ex.submit(job_script, i, c))
        if "design" in P:
            jobs.append(ex.submit(job_design))
        n, length = T["rnd"]
        chunk = 4000
        k = 0
        while n > 0:
            jobs.append(ex.submit(job_rnd, min(n, chunk), length, seed * 101 + k))
            n -= chunk
            k += 1
        n, length = BIG.get(prop, (40, 80))
        for i in range(2 if tier == "quick" else 12):
            jobs.append(ex.submit(job_rnd, n, length, seed * 101 + 7000 + i, 1))
        n, length = HUGE[prop]
        for i in range(3 if tier == "quick" else 10):
            jobs.append(ex.submit(job_rnd, n, length, seed * 101 + 9000 + i, 2))
        first = None
        for j in jobs:
            try:
                x = j.result()
            except Violation as v:
                first = first or v
                continue
            if x[2]:
                cov["states"] += x[2]["states"]
                cov["transitions"] += x[2]["transitions"]
            if x[0] == "gen":
                cov["replayed_behaviours"] += x[3]["behaviours"]
                cov["replayed_steps"] += x[3]["steps"]
                add(cov["generated_transitions_by_op"], x[3]["ops"])
            if x[0] in ("script", "rnd"):
                cov["traces_validated_against_impl"] += x[3]["traces"]
                cov["validated_events"] += x[3]["events"]
                cov["trace_states"] += x[4]["states"]
                add(cov["validated_events_by_op"], x[3]["ops"])
                if len(cov["samples"]) < 2:
                    cov["samples"] += sample_lines(x[5], 1)
        if first:
            first.cov = cov
            raise first
    cov["explanation"] = ("states/transitions: complete state graphs of the generator instances of the specification; every transition's "
                          "behaviour was replayed on the code (replayed_behaviours); traces_validated_against_impl: executions of the code "
                          "validated by TLC against the specification")
    return cov


def replay_seq(prop, path):
    """Re-executes a saved counterexample on the current tree."""
    m = json.load(open(path))
    drv = build("./seqdrv", "seqdrv")
    W = workdir()
    h = m["history"] if m["kind"] == "replay" else [[e["op"], e["a"]] for e in m["events"]]
    b = json.dumps({"c": m["cfg"], "h": h, "r": [], "s": []})
    inp = os.path.join(W, "b.txt")
    open(inp, "w").write(json.dumps(b) + "\n")
    tr = os.path.join(W, "t.ndjson")
    run([drv, "-prop", prop, "-mode", "script", "-in", inp, "-out", tr])
    validate_traces(prop, SEQ[prop]["spec"], tr, 1)
