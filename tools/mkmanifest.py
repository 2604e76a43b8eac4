#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]

CONTRACT = ("TLA+ contract (Crunch.tla) checked by TLC; conformance: TLC-enumerated behaviours replayed into the code, "
            "recorded executions validated by TLC (Trace.tla)")
CONTRACT_NOTE = ("Laws of the contract model-checked exhaustively in small buffers; every TLC-enumerated call history of the bounded "
                 "alphabet and a shortest history to every shape of storage (Storage.tla) replayed into all versions and both kinds; systematic sweeps "
                 "of single calls; randomly generated histories recorded from the real code judged "
                 "event by event by TLC, including buffers of more than 2^32 bytes seen through windows; millions of further executions "
                 "pre-selected by a Go transliteration of the contract. Bounded, not a proof: trusts the harness's rendering of calls and "
                 "observations and, for executions not recorded, the pre-selection.")
T = {p: (CONTRACT, CONTRACT_NOTE) for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C18".split()}
try:
    from manifest_more import MORE
    T.update(MORE)
except ImportError:
    pass

PROVED = "; the storage design proved for all sizes by TLAPS (StorageProof.tla)"
for p in ("C09", "C10", "C17", "C18"):
    if p in T:
        T[p] = (T[p][0] + PROVED, T[p][1])

m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "No hooks: harnesses are compiled into the modules by go build -overlay.", "source_commits": []},
     "notes": "check.py <id> [--tier quick|thorough] [--seed N] [--replay FILE]; VERIF_SEED and VERIF_TIER are honoured."}
for p in props:
    if p["id"] in T:
        tech, note = T[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": f"./check.py {p['id']}",
                            "thorough_cmd": f"./check.py {p['id']} --tier thorough",
                            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
