#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "explicit-state exhaustive exploration of the real crate in lockstep with a reference CBOR automaton (bounded inputs / operation sequences)"
NOTE = ("Every case of the stated finite spaces is executed on the real crate and compared with an independent reference model; "
        "nothing outside the bounds in the evidence file is covered. Trusted: the reference model, rustc.")
T = {
 "C20": "explicit-state exploration of the public state machine against a reference pushdown automaton, all event sequences up to a depth",
 "C22": "explicit-state exploration of all reader operation histories up to a depth on the real Reader against a reference cursor",
 "C12": "exhaustive exploration of all writer call sequences up to a depth on the real Writer against a reference encoder",
 "C16": "exhaustive exploration of a bounded family of derived declarations x values x encodings against an interpreter of the documented layouts",
 "C17": "exhaustive exploration of a bounded family of derived declarations x wire mutations against an interpreter of the documented layouts",
 "C18": "exhaustive exploration of a bounded family of derived enums x values x encodings against an interpreter of the documented layouts",
 "C19": "exhaustive exploration of a bounded family of derived enums x wire mutations against an interpreter of the documented layouts",
 "C23": "exhaustive exploration of all failure positions in a bounded family of values and derived records, on the real code, against a model of the error path",
 "C26": "explicit-state exhaustive exploration of the real crate and of a bounded family of derived declarations: every refusal compared with the faults a reference model finds in the input",
 "C25": "exhaustive exploration of a bounded set of inputs and operation orders on the real crate under an abstract-machine monitor (Miri)",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
ready = set(ids)
todo = os.path.join(V, "tools/not_ready.txt")
if os.path.exists(todo):
    ready -= set(open(todo).read().split())
checks = []
for i in ids:
    if i not in ready:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": T.get(i, MC),
        "level": "model_checking",
        "level_note": NOTE,
    })
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in ready]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
