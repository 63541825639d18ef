"""Runs the Python driver for B01, B02 and B03."""
import json
import os
import subprocess
import signal

import build

DRIVER = os.path.join(os.path.dirname(os.path.abspath(__file__)), "pydriver.py")
CPU_LIMIT = 60


def environment(check):
    """For B03 the allocator has to say what is in use, without caches."""
    if check.id != "B03":
        return None
    return dict(os.environ, PYTHONMALLOC="malloc", GLIBC_TUNABLES="glibc.malloc.tcache_count=0")


def command(check, *more):
    return [build.PYTHON, "-X", "utf8", "-B", DRIVER, check.id, "--vh", check.vh, "--pylib", check.pylib, *more]


def alone(check, *more, cpu=CPU_LIMIT):
    """'held', 'broken', 'died' or 'unknown' for one case in its own process."""
    from check import limits
    d = os.path.join(check.scratch, "alone")
    os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run(command(check, "--scratch", d, *more), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, env=environment(check),
                           preexec_fn=limits(cpu))
    except subprocess.TimeoutExpired:
        return "unknown", "no end within 300 s"
    t = (p.stdout + p.stderr).decode("utf-8", "replace")[-1500:]
    if p.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
        return "died", f"interpreter ended by signal {-p.returncode}"
    return {0: "held", 1: "broken"}.get(p.returncode, "unknown"), t


def shard(check, seed, index, shards):
    """The cases of a shard in one process; a violation or None."""
    out = os.path.join(check.scratch, "shard.out")
    for _ in range(2):
        kind, _ = alone(check, "--seed", str(seed), "--shard", str(index % shards), "--shards", str(shards), "--secs", "50", "--out", out, cpu=240)
        if kind == "broken":
            with open(out) as f:
                v = json.load(f)["violation"]
            return {"engine": "python", "seed": seed, "index": v["index"], "shards": shards, "confirmed": [kind],
                    "msg": f"after other cases in the same process: {v['msg']}"}
    return None


def run(check):
    from check import NoVerdict, REPEATS, jobs
    check.pylib = build.pymodule(check.scratch)
    bad, suspects, procs = check.shards(command(check), env=environment(check))
    if bad:
        bad["engine"] = "python"
        path = check.replay_file(bad)
        got = []
        while "broken" not in got and len(got) < REPEATS:
            got.append(alone(check, "--replay", path)[0])
        bad["confirmed"] = got
        if "broken" not in got:
            # it may depend on what the same process did before
            again = shard(check, bad["seed"], bad["index"], jobs())
            if not again:
                raise NoVerdict(f"a case broke the property but not when repeated ({got}): {bad['msg'][:2000]}")
            os.unlink(path)
            return again
        return bad
    for idx in suspects:
        if idx is None:
            continue
        out = os.path.join(check.scratch, "alone.out")
        runs = [alone(check, "--seed", str(check.seed), "--shard", "0", "--shards", "1", "--secs", "200", "--out", out, "--index", str(idx)) for _ in range(2)]
        kinds = [r[0] for r in runs]
        if check.id == "B02" and kinds == ["died", "died"]:
            return {"engine": "python", "seed": check.seed, "index": idx, "msg": f"case {idx}: {runs[0][1]}", "confirmed": kinds}
        raise NoVerdict(f"a worker stopped at case {idx}; repeated alone: {runs}")
    for w in procs:
        if w["code"] != 0:
            with open(w["out"] + ".err", errors="replace") as f:
                raise NoVerdict(f"worker ended with {w['code']}: {f.read()[-1500:]}")
    check.distinct()
    return None


def replay(check, d):
    check.pylib = build.pymodule(check.scratch)
    if "shards" in d:
        return 1 if shard(check, d["seed"], d["index"], d["shards"]) else 0
    if "case" in d:
        p = os.path.join(check.scratch, "replay.json")
        with open(p, "w") as f:
            json.dump(d, f)
        kind, t = alone(check, "--replay", p)
    else:
        kind, t = alone(check, "--seed", str(d["seed"]), "--shard", "0", "--shards", "1", "--secs", "200",
                        "--out", os.path.join(check.scratch, "alone.out"), "--index", str(d["index"]))
    print(kind, t)
    return {"held": 0, "unknown": 2}.get(kind, 1)
