#!/usr/bin/env python3
"""merge_evidence.py MAIN EXTRA: adds what the extra run covered to the main evidence file, removes the extra one"""
import json, os, sys
a, b = (json.load(open(p)) for p in sys.argv[1:3])
for k in ("transitions", "traces_validated_against_impl"):
    a["coverage"][k] = a["coverage"].get(k, 0) + b["coverage"].get(k, 0)
a["coverage"]["unoptimised_run"] = {k: b["coverage"].get(k) for k in ("states", "transitions", "cases")}
a["wall_s"] = round(a["wall_s"] + b["wall_s"], 1)
json.dump(a, open(sys.argv[1], "w"), indent=1)
os.remove(sys.argv[2])
