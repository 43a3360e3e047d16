#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property of properties.jsonl that has a harness."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
src = "".join(open(f"{V}/harness/{f}").read() for f in sorted(os.listdir(f"{V}/harness")) if f.endswith(".go"))
DFS = ("stateless model checking of the real code: every schedule, environment answer and fault up to a deviation bound, "
       "under a controlled scheduler with virtual network and clock; small scenarios also with a scheduling point "
       "before every statement")
ENUM = "bounded exhaustive enumeration of inputs/operation sequences on the real code against a reference model"
TECH = {"C17": ENUM, "C18": ENUM + "; plus stateless model checking of concurrent use", "C21": ENUM, "C22": ENUM,
        "C23": DFS + "; observations against linearised reference states; race scenarios under the race detector",
        "C27": DFS + ", each execution under the race detector with the scheduler's own hand-offs hidden from it"}
NOTE = ("Decided by exhausting all executions with at most the stated number of deviations (preemptions, non-default "
        "environment answers) of the listed closed scenarios; the evidence file gives the bound completed, executions, "
        "states and the distinct outcomes of each scenario. The same scenario bodies also run free on the real runtime "
        "and loopback network (native runs), which validates the virtual network and clock.")
checks, na = [], []
for p in props:
    i = p["id"]
    if not re.search(r'Prop:\s*"%s"' % i, src):
        na.append({"property": i, "reason": "harness not built yet"})
        continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, DFS), "level": "model_checking", "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
