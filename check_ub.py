#!/usr/bin/env python3
"""C15: run the undefined-behaviour workloads of the harness (props/ub.rs) under Miri (several
interpreter seeds), AddressSanitizer and MemorySanitizer; only a detector's own report is a violation."""
import json, os, re, subprocess, sys, time

TIER, SEED = sys.argv[1], int(sys.argv[2])
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
REPL = os.path.join(V, "replays")
TGT = "x86_64-unknown-linux-gnu"
thorough = TIER == "thorough"
MIRI_PROCS = 8
MIRI_CAP = 420 if thorough else 300
MIRI_CASES = 10**9 if thorough else 480
NATIVE_CAP = 150 if thorough else 90
t0 = time.time()

def env(target, flags, **kw):
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, target), RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e

H = os.path.join(V, "harness")
# all containers, or those that still fit their monitors, or the codecs alone
FEATURES = None
for f in ("internal", "c20,c21,c22,c23", "c20", "c21", "c22", "c23"):
    p = subprocess.run(["cargo", "+nightly", "check", "--release", "--offline", "--features", f + ",plainalloc"], cwd=H,
                       env=env("ubcheck", "--cfg adhoc_verif"), stdout=open(os.path.join(B, "ubcheck.log"), "w"), stderr=subprocess.STDOUT)
    if p.returncode == 0:
        FEATURES = (FEATURES + "," if FEATURES else "") + f
        if len(f) > 3:
            break
FEATURES = (FEATURES + "," if FEATURES else "") + "plainalloc"
FEAT = ["--release", "--offline", "--features", FEATURES]

def start_build(name, flags, extra):
    log = open(os.path.join(B, name + ".log"), "w")
    return subprocess.Popen(["cargo", "+nightly", "build"] + extra + FEAT + ["--target", TGT], cwd=H,
                            env=env(name, flags), stdout=log, stderr=log)

def inconclusive(msg):
    print("INCONCLUSIVE property=C15 " + msg.replace("VIOLATION", "violation"))
    sys.exit(2)

def build_failed(name):
    txt = open(os.path.join(B, name + ".log")).read()
    i = txt.find("error")
    inconclusive("build %s failed:\n%s" % (name, txt[max(0, i - 200):i + 2500]))

MSAN = ("msan", "-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg adhoc_verif", ["-Zbuild-std"])
ASAN = ("asan", "-Zsanitizer=address --cfg adhoc_verif", [])
builds = {n: start_build(n, f, x) for n, f, x in (ASAN, MSAN)}

# Miri: one build through the first process, then the others
def miri(k, frm, to, step, cap, logf):
    flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=%d" % (SEED * 1000 + k)
    return subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "--features", FEATURES, "--",
                             "plain", "--prop", "C15", "--seed", str(SEED), "--from", str(frm), "--to", str(to), "--step", str(step), "--cap", str(cap)],
                            cwd=H, env=env("miri", "--cfg adhoc_verif", MIRIFLAGS=flags), stdout=logf, stderr=subprocess.STDOUT)
warm = open(os.path.join(B, "miri-build.log"), "w+")
p = miri(99, 0, 0, 1, 1, warm)
try:
    p.wait(timeout=400)
except subprocess.TimeoutExpired:
    p.kill()
    inconclusive("Miri build does not end")
if p.returncode != 0:
    warm.seek(0)
    txt = warm.read()
    if "error" in txt and "DONE" not in txt:
        i = txt.find("error")
        inconclusive("Miri does not start:\n" + txt[max(0, i - 200):i + 2500])

violations = []  # (detector, case, message, text)
counters, sigs, evals, per = {}, set(), 0, {}
notes = []

def absorb(name, counts, n, s=()):
    global evals
    for k, v in counts.items():
        counters[k] = counters.get(k, 0) + v
    evals += n
    sigs.update(s)
    d = per.setdefault(name, {"histories": 0})
    d["histories"] += n

miri_logs, miri_ps = [], []
for k in range(MIRI_PROCS):
    f = open(os.path.join(B, "miri%d.log" % k), "w+")
    miri_logs.append(f)
    miri_ps.append(miri(k, k, MIRI_CASES, MIRI_PROCS, MIRI_CAP, f))
miri_t0 = time.time()

# reports that are no undefined behaviour (memory limits, exhausted stacks) are left out
NATIVE_UB = re.compile(r"ERROR: AddressSanitizer: (?!stack-overflow|out-of-memory|allocation-size|calloc-overflow|reallocarray-overflow|rss-limit)|WARNING: MemorySanitizer: |unsafe precondition\(s\) violated")

def native(name):
    """run one sanitizer build under the harness supervisor"""
    if builds[name].wait() != 0:
        build_failed(name)
    out = os.path.join(B, name + "-ev.json")
    if os.path.exists(out):
        os.remove(out)
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=1",
             MSAN_OPTIONS="allocator_may_return_null=1:max_allocation_size_mb=4000", RUST_BACKTRACE="0")
    exe = os.path.join(B, name, TGT, "release", "monitor")
    args = [exe, "run", "--prop", "C15", "--mem", "0", "--seed", str(SEED), "--tier", TIER, "--cap", str(NATIVE_CAP), "--evidence", out, "--replays", REPL]
    p = subprocess.run(args, env=e, capture_output=True, text=True)
    ev = json.load(open(out)) if os.path.exists(out) else None
    if p.returncode == 1:
        hit = False
        for path in re.findall(r"^VIOLATION property=C15 replay=(\S+)", p.stdout, re.M):
            txt = open(path).read()
            m = NATIVE_UB.search(txt)
            idx = int(re.search(r"-case(\d+)", path).group(1))
            if not m:
                # the supervisor keeps the tail of the output only: run the case again for the head
                q = subprocess.run([exe, "case", "--prop", "C15", "--seed", str(SEED), "--tier", TIER, "--idx", str(idx), "--mem", "0"], env=e, capture_output=True, text=True, errors="replace")
                txt = q.stdout + q.stderr
                m = NATIVE_UB.search(txt)
            if m:
                hit = True
                line = txt[m.start():].split("\n")[0]
                violations.append((name, idx, line, txt))
            else:
                notes.append("%s: case %d died without a report of undefined behaviour" % (name, idx))
        if not hit:
            notes.append("%s: %s" % (name, p.stdout[-500:]))
        return False
    if p.returncode != 0:
        notes.append("%s: exit %d %s" % (name, p.returncode, (p.stdout + p.stderr)[-500:]))
        return False
    absorb(name, ev["coverage"]["observed"], ev["coverage"]["evaluations"])
    per[name]["distinct"] = ev["coverage"]["distinct_nontrivial"]
    per[name]["samples"] = ev["coverage"]["samples"][:2]
    return True

ok = True
for n in ("asan", "msan"):
    ok &= native(n)

for k, (p, f) in enumerate(zip(miri_ps, miri_logs)):
    try:
        p.wait(timeout=max(5, MIRI_CAP + 200 - (time.time() - miri_t0)))
    except subprocess.TimeoutExpired:
        p.kill()
        notes.append("Miri process %d does not end" % k)
        ok = False
        continue
    f.seek(0)
    txt = f.read()
    cases = re.findall(r"^CASE (\d+)", txt, re.M)
    m = re.search(r"^error: (Undefined Behavior|unsupported operation|abnormal termination|.*)", txt, re.M)
    done = re.search(r"^DONE (\d+)", txt, re.M)
    if done:
        cnt = {b: int(a) for a, b in re.findall(r"^COUNT (\d+) (\S+)", txt, re.M)}
        absorb("miri", cnt, int(done.group(1)), re.findall(r"^SIG (\S+)", txt, re.M))
    elif "error: Undefined Behavior" in txt or "unsafe precondition(s) violated" in txt or "error: Data race" in txt:
        i = txt.find("error: Undefined Behavior")
        if i < 0:
            i = txt.find("unsafe precondition(s) violated")
        violations.append(("miri", int(cases[-1]) if cases else -1, txt[i:].split("\n")[0], txt[max(0, i - 300):i + 4000]))
    else:
        i = txt.rfind("error")
        notes.append("Miri process %d: exit %s %s" % (k, p.returncode, txt[max(0, i - 100):i + 600]))
        ok = False
per.setdefault("miri", {"histories": 0})["distinct"] = len(sigs)
per["miri"]["interpreter_seeds"] = MIRI_PROCS

distinct = max([len(sigs)] + [per[n].get("distinct", 0) for n in per])
need = {"miri": 250, "asan": 5000, "msan": 5000}
short = ["%s saw %d histories (need %d)" % (n, per.get(n, {}).get("histories", 0), m) for n, m in need.items() if per.get(n, {}).get("histories", 0) < m]
ev = {
    "property": "C15", "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
    "coverage": {
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": "One history = one random call sequence on a codec (AdhocCodec, WavCodec), on the result of loading damaged files, on codecs on two threads, or on an internal container or numeric helper; the native detectors also run the workloads of C03-C06, C10-C14 and C20-C22. Distinct by a hash of arguments and observable results; the detectors get the same case numbers, so the largest number over the detectors is reported.",
        "samples": sum([d.get("samples", []) for d in per.values()], []),
        "harness_features": FEATURES, "per_detector": per, "observed": counters,
    },
    "assumptions": ["code reached by these histories", "Miri: Stacked Borrows, small histories, sampled schedules and addresses"],
    "wall_s": round(time.time() - t0, 2), "violations": len(violations),
}
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
json.dump(ev, open(os.path.join(V, "evidence", "C15.json"), "w"), indent=1)
if violations:
    for k, (det, idx, line, txt) in enumerate(violations[:5]):
        path = os.path.join(REPL, "C15-%s-seed%d-case%d.txt" % (det, SEED, idx))
        open(path, "w").write("detector %s\nrerun: monitor plain|case --prop C15 --seed %d, case %d\n%s\n" % (det, SEED, idx, txt))
        print("%s case %d: %s" % (det, idx, line[:300]))
        print("VIOLATION property=C15 replay=%s" % path)
    sys.exit(1)
if not ok or short:
    inconclusive("; ".join(notes + short))
print("HELD property=C15 on %d histories: %s in %.0fs" % (evals, {n: d["histories"] for n, d in per.items()}, time.time() - t0))
