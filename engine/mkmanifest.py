#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(here)
sys.path.insert(0, here)
from plan import PLAN, NOT

NOTE = ("Seeded search, not proof: exit 0 means no violation on the runs counted in the evidence file. Real node code runs in one process under a seeded scheduler; "
        "trusted are the simulator's stand-ins for the network, gRPC, disk and clock and the oracles in /verif/sim.")
ids = [json.loads(l)["id"] for l in open(os.path.join(top, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "Go build tag verif", "enable": "go build -tags verif with an overlay (engine/mkoverlay.py) that adds the harness package and a seeded scheduler to the Go runtime",
               "source_commits": ["7900dd6"]},
     "checks": [], "not_applicable": []}
m["hooks"]["source_commits"] = [l.strip() for l in open(os.path.join(here, "hook_commits"))]
for i in ids:
    if i in PLAN:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, " + PLAN[i].get("oracle", "invariants and history checks"),
                            "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT.get(i, "no check has been built for it yet")})
json.dump(m, open(os.path.join(top, "MANIFEST.json"), "w"), indent=1)
