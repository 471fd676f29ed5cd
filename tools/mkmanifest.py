#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl") if l.strip()]
LIB = "runtime monitoring: real library functions on exhaustive and adversarial operands, every result judged by wide-integer reference arithmetic"
CAMP = "runtime monitoring: real entrypoints in a host Solana runtime under randomized hostile campaigns, judged by a lock-step reference model and raw-state monitors"
NOTE = "Held on the executions this run produced (see evidence); nothing is claimed about inputs or histories the workload did not reach. Trusts the reference model, the host runtime in harness/src/vm.rs and the rustc build."
CLAIMED = {p: (LIB if p in ("C26", "C27", "C28", "C29") else CAMP) for p in open(f"{R}/tools/claimed.txt").read().split()}
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [],
     "notes": "check.sh PROP builds the monitors against /repo's working tree and runs that property's campaign; check.sh replay FILE repeats a violation."}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": CLAIMED[i], "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1)
