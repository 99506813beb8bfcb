#!/usr/bin/env python3
"""Writes BOUNDS.md from the evidence files of a complete quick run, and the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# What the quick tier enumerates, as its evidence files report it", "",
       "Written by `tools/gen_docs.py` after a quick run on the unchanged tree; the thorough tier uses the same",
       "families with larger bounds. `cases` are executions of the real code's entry points on one input or history each.", ""]
for i in range(1, 100):
    f = f"{V}/evidence/C{i:02}.json"
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    if e["tier"] != "quick":
        continue
    c = e["coverage"]
    out += [f"## C{i:02}", "", f"Rule: {c.get('rule', '')}", "", "| family | bound | cases | comparisons |", "|---|---|---|---|"]
    for m in c.get("families", []):
        b = m["bound"].replace("|", "\\|")
        b = re.sub(r"\[(\d+, ){30,}\d+\]", lambda x: "[" + ", ".join(x[0][1:-1].split(", ")[:6]) + ", ..., " + x[0][1:-1].split(", ")[-1] + "]", b)
        out.append(f"| {m['name']} | {b} | {m['cases']} | {m['comparisons']} |")
    if "interpreted_cases" in c:
        out += ["", f"Interpreted by Miri: {c['interpreted_cases']} cases."]
    out.append("")
open(f"{V}/BOUNDS.md", "w").write("\n".join(out))
rows = ["| planted bug | property | caught by | needs |", "|---|---|---|---|"]
n = 0
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    n += 1
    by = m.get("caught_by", m["property"])
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {by} | {m['needs'].replace('|', '/')} |")
d = open(f"{V}/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
if a in d:
    d = d[:d.index(a) + len(a)] + f"{n} planted bugs; each is caught by the check named (quick tier).\n\n" + "\n".join(rows) + "\n" + d[d.index(b):]
    open(f"{V}/DESIGN.md", "w").write(d)
