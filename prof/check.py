#!/usr/bin/env python3
"""C28: the same seeded workload in several builds; every observation must agree."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
tier = os.environ.get("VERIF_TIER", "quick")
seed = os.environ.get("VERIF_SEED", "1")
thorough = tier == "thorough"
target = os.environ["CARGO_TARGET_DIR"]
t0 = time.time()
HOST = "x86_64-unknown-linux-gnu"


def run(cmd, cwd=here, timeout=None, **env):
    e = dict(os.environ, **env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        return "timeout", out.decode(errors="replace") if isinstance(out, bytes) else out


def no_verdict(msg, log=""):
    print(log[-3000:])
    print("no verdict:", msg)
    sys.exit(2)


def violation(what, observed, log=""):
    d = os.path.join(verif, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"C28-seed{seed}-{what}.json")
    json.dump({"property": "C28", "seed": int(seed), "tier": tier, "job": what, "observed": observed, "log": log[-6000:],
               "replay": f"VERIF_SEED={seed} {verif}/run.sh C28 {tier}"}, open(path, "w"), indent=1)
    evidence(1)
    print("observed:", observed[:3000])
    print(f"VIOLATION property=C28 replay={path}")
    sys.exit(1)


cov = {"evaluations": 0, "distinct_nontrivial": 0,
       "rule": "an observation is one public operation with its inputs and the value, error or refusal a program sees; the digests of the observations of all builds are compared per section; distinct = distinct (operation, inputs, outcome)",
       "samples": [], "observed_events": {}, "builds": {}}


def evidence(n):
    d = os.path.join(verif, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump({"property": "C28", "tier": tier, "seed": int(seed), "level": "exploration", "coverage": cov,
               "assumptions": ["builds by the installed rustc for x86-64", "the digest (64-bit FNV over the transcript) does not collide"],
               "wall_s": round(time.time() - t0, 3), "violations": n}, open(os.path.join(d, "C28.json"), "w"), indent=1)


def note(x):
    print(f"[{time.time() - t0:.0f}s] {x}", flush=True)


def build(cmd, **env):
    rc, out = run(["cargo", *cmd, "--offline"], **env)
    if rc != 0:
        no_verdict("the monitors do not build against /repo", out)


def parse(out):
    return {m[0]: m for m in (l.split()[1:] for l in out.splitlines() if l.startswith("SECTION "))}


def ending(rc):
    return "did not end" if rc == "timeout" else f"ended with status {rc}"


# debug: unoptimised, all checks; checked: optimised, all checks; release: no checks
PROFILES = ["debug", "checked", "release"] if thorough else ["debug", "release"]


def compare(a, b, ra, rb, scale):
    """ra, rb: (rc, out, binary) of two builds"""
    ok_a, ok_b = ra[0] == 0 and "PROF-DONE" in ra[1], rb[0] == 0 and "PROF-DONE" in rb[1]
    if not ok_a and not ok_b:
        no_verdict(f"the workload {ending(ra[0])} in {a} and {ending(rb[0])} in {b}", ra[1])
    if ok_a != ok_b:
        violation(f"{a}-{b}", f"the workload completes in one build only: it {ending(ra[0])} built as {a} and {ending(rb[0])} built as {b}", ra[1] if not ok_a else rb[1])
    sa, sb = parse(ra[1]), parse(rb[1])
    for s in sa:
        if s not in sb or sa[s][1] != sb[s][1]:
            da, db = (run([r[2], "dump", seed, scale, s])[1].splitlines() for r in (ra, rb))
            for x, y in zip(da, db):
                if x != y and not x.startswith("SECTION"):
                    violation(f"{a}-{b}-{s}", f"the {a} build observes [{x[:1200]}] and the {b} build observes [{y[:1200]}]")
            violation(f"{a}-{b}-{s}", f"the transcripts of {s} differ between {a} and {b}: {sa[s]} / {sb.get(s)}")


# 1. transcripts of the profiles
note("transcripts of the profiles")
build(["build"])
if thorough:
    build(["build", "--profile", "checked"])
build(["build", "--release"])
scale = "24" if thorough else "4"
res = {}
for p in PROFILES:
    exe = f"{target}/{p}/prof"
    rc, out = run([exe, "digest", seed, scale], timeout=900 if thorough else 150)
    res[p] = (rc, out, exe)
for p in PROFILES[1:]:
    compare("debug", p, res["debug"], res[p], scale)
for p in PROFILES:
    m = re.search(r"^ARITH .*", res[p][1], re.M)
    if m:
        violation("arithmetic", f"{p} build: {m.group(0)}")
kinds = {}
for s in parse(res["debug"][1]).values():
    cov["evaluations"] += int(s[2]) * len(PROFILES)
    cov["distinct_nontrivial"] += int(s[3])
    for k in s[4:]:
        n, v = k.split("=")
        kinds[n] = kinds.get(n, 0) + int(v)
cov["observed_events"].update({f"observations per build: {k}": v for k, v in kinds.items()})
cov["builds"]["profiles with equal transcripts"] = PROFILES
dump = run([res["release"][2], "dump", seed, "1", "fp2_0"])[1].splitlines()
cov["samples"] = [l[:300] for l in dump[5:len(dump):max(1, len(dump) // 8)]][:8]
if not kinds.get("error") or not kinds.get("refused") or not kinds.get("value"):
    no_verdict("the workload did not produce values, errors and refusals")

# 2. the other monitors' workloads, with reference oracles, built with and without checks
note("the other monitors' workloads, with")
rc, out = run(["cargo", "build", "--offline", "--release"], cwd=os.path.join(verif, "harness"))
if rc != 0:
    no_verdict("the monitors do not build against /repo", out)
ids = [f"C{i:02}" for i in range(1, 24)] + ["C26", "C27", "C29", "C30", "C31", "C32"]
differ, evals = [], 0
for i in ids:
    v = {}
    for p in ("release", "debug"):
        rc, out = run([f"{target}/{p}/vmon", i, "--tier", "quick"], VMON_DRY="1" if thorough else "15", timeout=300)
        v[p] = (rc, "\n".join(l for l in out.splitlines() if l.startswith("DRY"))[:1500])
        evals += sum(int(x) for x in re.findall(r"^DRY evaluations (\d+)", out, re.M))
    if {v["release"][0], v["debug"][0]} == {0, 1}:
        bad = "release" if v["release"][0] == 1 else "debug"
        violation(f"verdict-{i}", f"the workload of {i} agrees with its reference in one build and not in the {bad} build: {v[bad][1]}")
    mo = re.search(r"with overflow|out of bounds|out of range for slice", v["debug"][1])
    if v["debug"][0] == 1 and mo and "attempt to" in v["debug"][1]:
        violation(f"verdict-{i}", f"an operation in the workload of {i} overflows: {v['debug'][1]}")
cov["evaluations"] += evals
cov["observed_events"]["reference evaluations agreeing in the checked and the unchecked build"] = evals

# 3. the interpreter, on small parameters: undefined behaviour and the same transcript
note("the interpreter, on small parameter")
miri_env = dict(RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation")
rc, out = run(["cargo", "miri", "run", "--offline", "--", "list", seed, "0"], **miri_env)
if rc != 0:
    no_verdict("the Miri build failed", out)
secs = out.split()
secs = [l for l in out.splitlines() if re.fullmatch(r"(fp|fp2|scalars|wide|words|curve)_\w+", l)]
want = secs if thorough else [s for s in secs if s in ("fp_7", "fp_13", "fp2_3", "scalars_m", "wide_32", "words_w", "words_m", "words_e", "curve_w", "curve_m", "curve_e")]
native = parse(run([res["debug"][2], "digest", seed, "0"])[1])
with ThreadPoolExecutor(8) as ex:
    got = list(ex.map(lambda s: (s, run(["cargo", "miri", "run", "--offline", "--", "digest", seed, "0", s], timeout=1500 if thorough else 400, **miri_env)), want))
n = 0
for s, (rc, out) in got:
    m = re.search(r"^error.*Undefined Behavior.*|^error: unsupported.*|Data race.*", out, re.M)
    if m:
        violation(f"miri-{s}", f"Miri, section {s}: {m.group(0)}", out)
    d = parse(out)
    if rc != 0 or s not in d:
        no_verdict(f"Miri {ending(rc)} in {s}", out)
    if d[s][1] != native[s][1]:
        violation(f"miri-{s}", f"the interpreted transcript of {s} differs from the native one: {d[s]} / {native[s]}", out)
    n += int(d[s][2])
cov["observed_events"]["observations under Miri without undefined behaviour"] = n
cov["builds"]["miri sections"] = want

# 4. AddressSanitizer
if thorough:
    note("AddressSanitizer")
if thorough:
    build(["build", "--target", HOST], RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address")
    exe = f"{target}/{HOST}/debug/prof"
    rc, out = run([exe, "digest", seed, scale], timeout=1800)
    if "ERROR: AddressSanitizer" in out:
        violation("asan", "AddressSanitizer: " + re.search(r"ERROR: AddressSanitizer.*", out).group(0), out)
    compare("debug", "asan", res["debug"], (rc, out, exe), scale)
    cov["builds"]["address sanitizer"] = "silent, equal transcripts"
evidence(0)
print(f"C28 held: {cov['evaluations']} observations, {cov['observed_events']}")
