#!/usr/bin/env python3
"""C25: runs the undefined-behaviour explorer of mc/src/props/ub.rs against /repo's working tree,
   compiled with AddressSanitizer over wide families, then interpreted by Miri over narrow ones.
   Only undefined behaviour (and strings that are not UTF-8) is a violation here."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = sys.argv[2]
os.chdir(V)
base = os.environ.get("CARGO_TARGET_DIR", os.path.join(V, "target"))
ev_path = "evidence/C25.json"
seed = int(os.environ.get("VERIF_SEED", "1"))
os.makedirs("replays", exist_ok=True)
os.makedirs("evidence", exist_ok=True)
t0 = time.time()
NOT_UB = r"AddressSanitizer: (stack-overflow|allocation-size-too-big|out of memory|requested allocation|rss-limit)"


def env(**kw):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e


def sh(cmd, e, cwd=V, timeout=None):
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def write_evidence(cov, violations):
    with open(ev_path, "w") as f:
        json.dump({"property": "C25", "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": ["AddressSanitizer and Miri (Stacked Borrows) detect undefined behaviour when it is executed",
                                   "every public call is exercised, not every sequence of calls"],
                   "wall_s": round(time.time() - t0, 1), "violations": violations}, f, indent=1)


# ---- compiled, wide
r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--locked", "--target", "x86_64-unknown-linux-gnu"],
       env(RUSTFLAGS="-Zsanitizer=address", CARGO_TARGET_DIR=os.path.join(base, "asan")), os.path.join(V, "mc"))
if r.returncode:
    print(r.stdout[-5000:])
    print("check.py: the explorer does not build against /repo", file=sys.stderr)
    sys.exit(3)
exe = os.path.join(base, "asan/x86_64-unknown-linux-gnu/release/mc")
r = sh([exe, "run", "C25", tier, ev_path, "replays", "known_findings.txt"],
       env(ASAN_OPTIONS="detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=0"))
ub = re.search(r"is not UTF-8|never initialised|unsafe precondition", r.stdout) or ("AddressSanitizer" in r.stdout and not re.search(NOT_UB, r.stdout))
print(r.stdout[-12000:] if ub or r.returncode not in (0, 1) else r.stdout if r.returncode == 0 else re.sub(r"(?m)^VIOLATION.*\n?", "", r.stdout))
if r.returncode == 1 and ub:
    sys.exit(1)
note = None
if r.returncode == 1:
    note = "the compiled run stopped early at something that is no undefined behaviour (exhaustion or non-termination)"
    print("note: " + note)
elif r.returncode != 0:
    sys.exit(3)
try:
    cov = json.load(open(ev_path))["coverage"]
except Exception:
    cov = {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": []}

# ---- interpreted, narrow
N = os.cpu_count() or 8
tmp = tempfile.mkdtemp(prefix="ub-")
code = 0
try:
    cases = subprocess.run([exe, "narrow", tier], env=env(ASAN_OPTIONS="detect_leaks=0"), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    cases = cases[:-1] if cases and cases[-1] == "" else cases
    e = env(MIRIFLAGS="-Zmiri-ignore-leaks -Zmiri-disable-isolation", CARGO_TARGET_DIR=os.path.join(base, "miri"))
    M = os.path.join(V, "miri")
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--"]
    empty = os.path.join(tmp, "empty")
    open(empty, "w").close()
    r = sh(cmd + [empty], e, M)
    if "DONE" not in r.stdout:
        print(r.stdout[-5000:])
        print("check.py: the interpreter does not run", file=sys.stderr)
        sys.exit(3)
    procs = []
    for i in range(N):
        p = os.path.join(tmp, f"c{i}")
        with open(p, "w") as f:
            f.write("".join(l + "\n" for l in cases[i::N]))
        out = open(os.path.join(tmp, f"o{i}"), "w")
        procs.append(subprocess.Popen(cmd + [p], env=e, cwd=M, stdout=out, stderr=subprocess.STDOUT, start_new_session=True))
    done = execs = steps = 0
    bad = []
    odd = []
    limit = int(os.environ.get("C25_LIMIT", 600)) if tier == "quick" else 6 * 3600
    cut = False
    end = time.time() + limit - (time.time() - t0)
    while any(p.poll() is None for p in procs):
        if time.time() > end:
            # the longest cases remain: what was interpreted is judged, and the evidence says that it is not all
            cut = True
            for p in procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            break
        time.sleep(0.5)
    for i in range(N):
        o = open(os.path.join(tmp, f"o{i}"), errors="replace").read()
        seen = re.findall(r"(?m)^CASE (.*)$", o)
        m = re.search(r"(?m)^DONE (\d+) (\d+)", o)
        done += len(seen)
        if m:
            execs += int(m[1])
            steps += int(m[2])
        elif "Undefined Behavior" in o or "\nBAD " in o:
            bad.append((seen[-1] if seen else "", o[-6000:]))
        elif cut:
            note = "the interpreter did not finish in time; the longest cases remain"
            done -= len(seen) > 0
        else:
            odd.append((seen[-1] if seen else "", o[-3000:]))
finally:
    shutil.rmtree(tmp, ignore_errors=True)

cov["states"] = cov.get("states", 0)
cov["transitions"] = cov.get("transitions", 0) + steps
cov["traces_validated_against_impl"] = cov.get("traces_validated_against_impl", 0) + execs
cov["interpreted_cases"] = done
cov["compiled_with"] = "AddressSanitizer"
cov["interpreted_with"] = "Miri, Stacked Borrows"
cov["exhaustive"] = not bad and not odd and note is None
if note:
    cov["note"] = note
write_evidence(cov, len(bad))
if bad:
    bad.sort(key=lambda x: (len(x[0]), x[0]))
    case, o = bad[0]
    path = os.path.join(V, "replays", "C25-miri.txt")
    with open(path, "w") as f:
        f.write(f"property C25\nfamily miri\ncase {case}\n\nput the case on a line of a file F, then in /verif/miri:\n"
                f"MIRIFLAGS='-Zmiri-ignore-leaks -Zmiri-disable-isolation' cargo +nightly miri run --offline -- F\n\n{o}\n")
    print(o)
    print(f"case {case} under the interpreter")
    print(f"VIOLATION property=C25 replay={path}")
    sys.exit(1)
if odd:
    # the interpreter gave up for another reason (exhaustion of its stack or memory): no undefined behaviour
    case, o = odd[0]
    print(o)
    if re.search(r"(stack overflow|resource exhaustion|memory allocation of|allocation limit)", o):
        print(f"note: interpretation ended early at case {case}, without undefined behaviour")
        sys.exit(0)
    print("check.py: the interpreter stopped", file=sys.stderr)
    sys.exit(3)
print(f"  interpreted: {done} cases, no undefined behaviour; {time.time() - t0:.0f} s")
sys.exit(code)
