#!/usr/bin/env python3
"""Builds the derive explorer against /repo's working tree and runs one property.

A declaration of the family that does not compile any more while the rest does is a violation of C16 (records)
or C18 (enums): the documented layout is not written at all. The other properties go on without it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = os.path.join(V, "mcd")
prop, tier = sys.argv[1], sys.argv[2]
target = os.environ.get("CARGO_TARGET_DIR", os.path.join(V, "target"))
os.makedirs(target, exist_ok=True)
os.makedirs(os.path.join(V, "replays"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
decls = os.path.join(target, f"mcd-decls-{tier}.rs")
env = dict(os.environ, MCD_DECLS=decls, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")


def cargo(*args):
    return subprocess.run(["cargo", "build", "--release", "--offline", "--locked", *args], env=env, cwd=M,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def gen(excl):
    r = subprocess.run([sys.executable, os.path.join(M, "gen.py"), decls, tier, *excl], stdout=subprocess.PIPE, text=True)
    if r.returncode:
        sys.exit(3)
    print(r.stdout.strip())


t0 = time.time()
excluded = {}
for attempt in range(6):
    gen(sorted(excluded))
    r = cargo("--message-format=json")
    if r.returncode == 0:
        break
    spans = []
    for l in open(decls + ".spans"):
        a, b, kind, key = l.split()
        spans.append((int(a), int(b), kind, key))
    new = {}
    other = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
            continue
        hit = False
        for s in m["message"].get("spans", []):
            while s:
                if s["file_name"].endswith(os.path.basename(decls)):
                    for a, b, kind, key in spans:
                        if a <= s["line_start"] <= b:
                            new.setdefault(key, (kind, m["message"].get("rendered") or m["message"]["message"]))
                            hit = True
                s = (s.get("expansion") or {}).get("span")
        if not hit:
            other.append(m["message"].get("rendered") or m["message"]["message"])
    new = {k: v for k, v in new.items() if k not in excluded}
    if not new:
        print("".join(other) or r.stdout[-4000:])
        print("check.py: the derive explorer does not build against /repo", file=sys.stderr)
        sys.exit(3)
    excluded.update(new)
else:
    print("check.py: too many rounds of declarations that do not compile", file=sys.stderr)
    sys.exit(3)

want = {"C16": "rec", "C18": "enum"}.get(prop)
bad = [(k, m) for k, (kind, m) in excluded.items() if kind == want]
if bad:
    key, msg = bad[0]
    path = os.path.join(V, "replays", f"{prop}-compile-{key}.txt")
    with open(path, "w") as f:
        f.write(f"property {prop}\ndeclaration {key} of mcd/gen.py does not compile\n\n{msg}\n")
    with open(os.path.join(V, "evidence", f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
                   "coverage": {"states": len(spans), "transitions": len(spans), "traces_validated_against_impl": len(spans) - len(bad),
                                "samples": [f"declaration {k} does not compile" for k, _ in bad[:5]], "exhaustive": False},
                   "wall_s": round(time.time() - t0, 1), "violations": len(bad)}, f, indent=1)
    print(f"violated: {len(bad)} declarations do not compile, first {key}\n{msg}")
    print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1)
if excluded:
    print(f"note: {len(excluded)} declarations do not compile and are left out: {sorted(excluded)[:10]}")
sys.stdout.flush()
os.chdir(V)
os.execv(os.path.join(target, "release", "mcd"),
         ["mcd", "run", prop, tier, f"evidence/{prop}.json", os.path.join(V, "replays"), "known_findings.txt"])
