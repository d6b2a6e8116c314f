#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seq
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
try:
    import conc
    CONC = conc.CONC
except ImportError:
    CONC = {}
checks = []
NOTE_SEQ = ("Every transition of the bounded specification graph is replayed on the real code and random longer executions are "
            "validated by TLC against the specification; exhaustive within the bounds, sampled beyond. Trusts TLC and the driver's observations "
            "through the public interface.")
NOTE_CONC = ("Executions of the real code under a controlled scheduler (systematic with bounded preemptions, then random; virtual time) are validated by "
             "TLC against the atomic specification; exhaustive within the scenario and preemption bounds, sampled beyond. Assumes "
             "code between two synchronisation operations is atomic, which a race-detector stage of the unmodified code discharges on its runs. Trusts TLC, the "
             "scheduler shims and the driver's observations.")
for p in props:
    if p in seq.SEQ:
        checks.append(dict(property=p, quick_cmd="bin/check " + p, thorough_cmd="VERIF_TIER=thorough bin/check " + p, technique="TLA+ specification: TLC-generated behaviours replayed on the code, code traces validated by TLC", level="model_checking", level_note=NOTE_SEQ))
    elif p in CONC:
        checks.append(dict(property=p, quick_cmd="bin/check " + p, thorough_cmd="VERIF_TIER=thorough bin/check " + p, technique="TLA+ specification: histories of controlled schedules of the code validated by TLC, design model checked", level="model_checking", level_note=NOTE_CONC))
na = [dict(property=p, reason="check under construction") for p in props if p not in [c["property"] for c in checks]]
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the concurrent drivers instrument a copy of the sources through go build -overlay.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
