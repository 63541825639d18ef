"""Data race detectors for S03: ThreadSanitizer over the workloads of the
harness, and an interpreter (Miri) over small workloads under many schedules.

Only a report of a data race, of undefined behaviour, of a deadlock proven by
the interpreter or of differing results is a violation. A detector that cannot
run here is noted in the evidence and judges nothing.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import time

import build

TARGET = os.path.join(build.HERE, "target-tsan")
CACHE = os.path.join(build.HERE, "target-miri")
TRIPLE = "x86_64-unknown-linux-gnu"


def tsan_build():
    crate = os.path.join(build.HERE, "harness")
    e = build.env(TARGET, build.NIGHTLY, RUSTFLAGS="-Zsanitizer=thread")
    with build.Locked(TARGET):
        build.fresh(crate, TARGET, build.sources([build.REPO, crate]), ["rspolib", "vh"],
                    ["--release", "-Zbuild-std", "--target", TRIPLE], e)
        return os.path.join(TARGET, TRIPLE, "release", "vh")


def miri_env(target, **more):
    return build.env(target, build.NIGHTLY, XDG_CACHE_HOME=CACHE, **more)


def miri_setup():
    with build.Locked(CACHE):
        build.cargo(os.path.join(build.HERE, "miri"), ["miri", "setup"], miri_env(os.path.join(CACHE, "t")))


def setup():
    tsan_build()
    miri_setup()


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def report(text, mark, n=4000):
    i = text.find(mark)
    return text[max(0, i):i + n]


def tsan(check):
    vh = os.path.join(check.scratch, "vh-tsan")
    shutil.copy2(tsan_build(), vh)
    secs = 20 if check.tier == "quick" else 200
    from check import jobs
    env = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66:detect_deadlocks=0:report_signal_unsafe=0:report_thread_leaks=0:report_atomic_races=1")
    env.pop("RUST_BACKTRACE", None)
    ws = []
    # other cases than those run without the detector
    for k in range(jobs()):
        sd = os.path.join(check.scratch, f"t{k}")
        os.makedirs(sd, exist_ok=True)
        out = os.path.join(check.scratch, f"tsan{k}")
        cmd = [vh, "worker", check.id, "--seed", str(check.seed ^ 0x5ca1ab1e), "--shard", str(k), "--shards", str(jobs()),
               "--secs", str(secs), "--scratch", sd, "--out", out]
        ws.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "wb"), env=env, start_new_session=True), out))
    end = time.time() + secs + 60
    for p, out in ws:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            check.count("detector_workers_stopped")
            kill(p)
    bad = None
    for p, out in ws:
        with open(out + ".err", errors="replace") as f:
            err = f.read()
        if "WARNING: ThreadSanitizer: data race" in err:
            bad = bad or {"engine": "races", "msg": "ThreadSanitizer reports a data race:\n" + report(err, "WARNING: ThreadSanitizer"), "confirmed": ["data race"]}
            continue
        try:
            with open(out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            check.count("detector_workers_without_result")
            continue
        check.count("workloads_under_thread_sanitizer", r["done"])
        if r["violation"] and not bad:
            bad = dict(r["violation"], engine="rust")
    return bad


def interpreter(check):
    miri_setup()
    n = 40 if check.tier == "quick" else 600
    limit = 150 if check.tier == "quick" else 480
    first = (check.seed * 1000) % (1 << 30)
    rate = ("0.01", "0.05", "0.2")[check.seed % 3]
    t = os.path.join(check.scratch, "miri")
    e = miri_env(t, MIRIFLAGS=f"-Zmiri-isolation-error=hide -Zmiri-preemption-rate={rate} -Zmiri-many-seeds={first}..{first + n}")
    out = os.path.join(check.scratch, "miri.out")
    with open(out, "wb") as f:
        p = subprocess.Popen(["cargo", "miri", "run", "--offline"], cwd=os.path.join(build.HERE, "miri"), env=e, stdout=f, stderr=f, start_new_session=True)
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            kill(p)
    with open(out, errors="replace") as f:
        text = f.read()
    check.count("schedules_interpreted", len(re.findall(r"^SAME ", text, re.M)))
    check.count("results_compared_under_interpreter", sum(int(x) for x in re.findall(r"^SAME (\d+)", text, re.M)))
    for mark in ("DIFFERS thread", "Undefined Behavior", "the evaluated program deadlocked", "deadlock: "):
        if mark in text:
            seed = re.search(r"FAILING SEED: (\d+)", text)
            return {"engine": "races", "msg": f"interpreter, schedule {seed and seed[1]}:\n" + report(text, mark), "confirmed": ["interpreted"]}
    if p.returncode != 0:
        check.count("interpreter_runs_not_judged")
        check.assumptions.append("the interpreter ended without verdict: " + text[-300:])
    return None


def run(check):
    for phase in (tsan, interpreter):
        try:
            bad = phase(check)
        except build.BuildError as e:
            check.count("detectors_not_built")
            check.assumptions.append(f"{phase.__name__} could not be built: {str(e)[-300:]}")
            continue
        if bad:
            return bad
    return None
