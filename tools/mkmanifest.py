#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties that have a check."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
CLAIMED = open(os.path.join(root, "tools", "claimed.txt")).read().split()
FAULT = {"T04", "P03", "V08", "X01", "X06"}
SCHED = {"T08", "T09", "T10", "S02", "X02"}
TECH = {
 "input": "exhaustive enumeration of a bounded input/history space on the real code against a reference model (stateless explicit-state model checking)",
 "sched": "exhaustive exploration of all interleavings of the real goroutines under a controlled scheduler (testing/synctest bubbles), against a reference model, plus a separate race-detector pass",
 "fault": "exhaustive enumeration of faults (truncations, corruptions, injected errors) within stated bounds on the real code against a reference model",
}
NOTE = {
 "input": "No execution of the stated finite space violates the property; values outside the enumerated alphabets and longer histories are not covered. Trusts the reference model in /verif/mc, the Go toolchain and the bit reader dependency.",
 "sched": "No interleaving of scheduling points (source reads, sends/receives, completion waits) within the stated bounds violates the property; interleavings inside a step are covered only by the free-running race-detector pass. Trusts testing/synctest and the reference model.",
 "fault": "No fault of the enumerated classes over the stated corpus violates the property; combinations of faults beyond the bound are not covered. Trusts the reference model in /verif/mc and the supervisor that attributes crashes and hangs.",
}
checks = []
for i in ids:
    if i not in CLAIMED: continue
    k = "fault" if i in FAULT else "sched" if i in SCHED else "input"
    checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
      "technique": TECH[k], "level": "fault_enumeration" if k == "fault" else "model_checking", "level_note": NOTE[k]})
na = [{"property": i, "reason": "check under construction"} for i in ids if i not in CLAIMED]
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the exported API. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
