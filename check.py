#!/usr/bin/env python3
"""Runs the monitor of one property over generated executions of /repo.

    check.py ID            run the check (VERIF_SEED, VERIF_TIER)
    check.py --replay FILE re-run the case recorded in a replay file
    check.py --setup       build everything the checks need

Exit 0: held; 1: broken (with a VIOLATION line); 2: no verdict.
"""
import glob
import hashlib
import json
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build  # noqa: E402

sys.modules["check"] = sys.modules[__name__]

# Properties that promise to return on any input: there a confirmed abort or
# endless call is a violation. Elsewhere it leaves the check without verdict.
# A confirmed crash (memory fault, stack overflow) is a violation anywhere.
TOTAL = {"P04", "M04"}
FAULTS = {"S01", "M04"}
CPU_LIMIT = 20
STALL = 40
REPEATS = 12


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def seed():
    v = os.environ.get("VERIF_SEED", "1")
    try:
        return int(v) & 0xFFFFFFFF
    except ValueError:
        return int(hashlib.sha256(v.encode()).hexdigest()[:8], 16)


def findings():
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("known: property="):
                w = line.split(None, 3)
                out.append((w[1].split("=", 1)[1], w[2].split("=", 1)[1], w[3].strip()))
    return out


def jobs():
    return max(1, min(8, len(os.sched_getaffinity(0))))


def limits(cpu=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def isolated(cmd, scratch):
    """One case alone: 'held', 'broken', 'crash', 'abort', 'endless' or 'unknown'."""
    d = tempfile.mkdtemp(dir=scratch)
    try:
        p = subprocess.run(cmd + ["--scratch", d], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=120, preexec_fn=limits(CPU_LIMIT))
    except subprocess.TimeoutExpired:
        return "unknown", ""
    t = p.stdout.decode("utf-8", "replace").strip()
    if p.returncode == 0:
        return "held", t
    if p.returncode == 1:
        return "broken", t
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return "endless", ""
    err = p.stderr.decode("utf-8", "replace")
    if p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL) or (p.returncode == -signal.SIGABRT and "overflowed its stack" in err):
        return "crash", f"process ended by signal {-p.returncode}: {err[-300:]}"
    if p.returncode == -signal.SIGABRT:
        return "abort", f"process ended by signal {-p.returncode}: {err[-300:]}"
    return "unknown", f"exit {p.returncode}"


class Check:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = seed()
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vh-{pid}-")
        self.known = [k for k in findings() if k[0] == pid]
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.counters = {}
        self.known_hits = {}
        self.assumptions = []

    # -- results -----------------------------------------------------------
    def replay_file(self, data):
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        t = json.dumps(dict(data, property=self.id), ensure_ascii=True)
        p = os.path.join(d, f"{self.id}-{hashlib.sha256(t.encode()).hexdigest()[:12]}.json")
        with open(p, "w") as f:
            f.write(t)
        return p

    def evidence(self, violations):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        self.cov["observed"] = self.counters
        if self.known_hits:
            self.cov["known_finding_hits"] = self.known_hits
        e = {
            "property": self.id, "tier": self.tier, "seed": self.seed,
            "level": "fault_enumeration" if self.id in FAULTS else "exploration",
            "coverage": self.cov, "wall_s": round(time.time() - self.start, 2),
            "violations": violations, "assumptions": self.assumptions,
        }
        p = os.path.join(HERE, "evidence", f"{self.id}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
        os.replace(p + ".tmp", p)

    def violation(self, data):
        p = self.replay_file(data)
        print(data.get("msg", "")[:3000])
        self.evidence(1)
        print(f"VIOLATION property={self.id} replay={p}", flush=True)
        return 1

    def held(self):
        for _, key, what in self.known:
            if self.known_hits.get(key):
                print(f"KNOWN-FINDING: property={self.id} {what}")
        self.evidence(0)
        c = self.cov
        print(f"{self.id} held: {c['evaluations']} evaluations, {c['distinct_nontrivial']} distinct non-trivial, seed {self.seed}, {self.tier}")
        return 0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # -- phases ------------------------------------------------------------
    def shards(self, argv, env=None, cap=None):
        """Run worker processes; returns a violation dict or None."""
        n = jobs()
        cap = cap or (45 if self.tier == "quick" else 240)
        cap = float(os.environ.get("VERIF_SECS", cap))
        procs = []
        for k in range(n):
            out = os.path.join(self.scratch, f"out{k}")
            sd = os.path.join(self.scratch, f"s{k}")
            os.makedirs(sd, exist_ok=True)
            cmd = argv + ["--seed", str(self.seed), "--shard", str(k), "--shards", str(n), "--secs", str(cap),
                          "--scratch", sd, "--out", out]
            if self.tier == "thorough":
                cmd.append("--thorough")
            if self.known:
                cmd += ["--known", ",".join(k[1] for k in self.known)]
            err = open(out + ".err", "wb")
            procs.append(dict(p=subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limits(), env=env),
                              out=out, hb=None, since=time.time(), code=None, suspect=None))
        bad = None
        try:
            while any(w["code"] is None and w["suspect"] is None for w in procs):
                time.sleep(0.05)
                for w in procs:
                    if w["code"] is not None or w["suspect"] is not None:
                        continue
                    w["code"] = w["p"].poll()
                    hb = self.heartbeat(w["out"])
                    if hb != w["hb"]:
                        w["hb"], w["since"] = hb, time.time()
                    if w["code"] is None:
                        if time.time() - w["since"] > STALL:
                            w["p"].kill()
                            w["p"].wait()
                            w["suspect"] = hb
                    elif w["code"] not in (0, 1):
                        w["suspect"] = hb
                if any(w["code"] == 1 for w in procs):
                    break
        finally:
            for w in procs:
                if w["p"].poll() is None:
                    w["p"].kill()
                    w["p"].wait()
        results = []
        for w in procs:
            try:
                with open(w["out"]) as f:
                    results.append(json.load(f))
            except (OSError, ValueError):
                if w["code"] in (0, 1):
                    raise NoVerdict(f"a worker that ended with {w['code']} left no result")
        for r in results:
            self.cov["evaluations"] += r["done"]
            self.cov["rule"] = self.cov["rule"] or r["rule"]
            self.cov["samples"] += r["samples"][: max(0, 6 - len(self.cov["samples"]))]
            for k, v in r["counters"].items():
                self.count(k, v)
            for k, v in r["known"].items():
                self.known_hits[k] = self.known_hits.get(k, 0) + v
            if r["violation"] and bad is None:
                bad = r["violation"]
        if results and not bad:
            self.cov["planned"] = self.cov.get("planned", 0) + results[0]["planned"]
        return bad, [w["suspect"] for w in procs if w["suspect"] is not None], procs

    def heartbeat(self, out):
        try:
            with open(out + ".hb", "rb") as f:
                return struct.unpack("<Q", f.read(8))[0]
        except (OSError, struct.error):
            return None

    def distinct(self):
        files = glob.glob(os.path.join(glob.escape(self.scratch), "out*.distinct"))
        out = subprocess.run([self.vh, "distinct"] + files, stdout=subprocess.PIPE, check=True).stdout
        self.cov["distinct_nontrivial"] += int(out)

    def history(self, seed, index, shards=None):
        """The cases of a shard up to one, in one process; a violation or None."""
        n = shards or jobs()
        for k in range(2):
            d = os.path.join(self.scratch, f"h{k}")
            os.makedirs(d, exist_ok=True)
            cmd = [self.vh, "worker", self.id, "--seed", str(seed), "--shard", str(index % n), "--shards", str(n),
                   "--cases", str(index + 1), "--scratch", d, "--out", d + ".out"]
            if self.known:
                cmd += ["--known", ",".join(k[1] for k in self.known)]
            try:
                p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240, preexec_fn=limits())
            except subprocess.TimeoutExpired:
                continue
            if p.returncode == 1:
                with open(d + ".out") as f:
                    v = json.load(f)["violation"]
                return {"engine": "history", "seed": seed, "index": v["index"], "shards": n,
                        "msg": f"after {index // n} other cases in the same process: {v['msg']}", "confirmed": ["broken"]}
        return None

    def rust(self):
        bad, suspects, procs = self.shards([self.vh, "worker", self.id])
        if bad:
            bad["engine"] = "rust"
            path = self.replay_file(bad)
            got = []
            # what depends on hashing or scheduling may need several repeats
            while "broken" not in got and len(got) < REPEATS:
                got.append(isolated([self.vh, "replay", path], self.scratch)[0])
            bad["confirmed"] = got
            if "broken" not in got and self.id != "S03":
                # it may depend on what the same process did before
                again = self.history(bad["seed"], bad["index"])
                if not again:
                    raise NoVerdict(f"a case broke the property but not when repeated ({got}): {bad['msg'][:2000]}")
                os.unlink(path)
                return again
            return bad
        for idx in suspects:
            if idx is None:
                continue
            runs = [isolated([self.vh, "one", self.id, "--seed", str(self.seed), "--index", str(idx)], self.scratch) for _ in range(2)]
            kinds = [r[0] for r in runs]
            if kinds[0] == kinds[1] and (kinds[0] == "crash" or self.id in TOTAL and kinds[0] in ("abort", "endless")):
                what = runs[0][1] or f"no result after {CPU_LIMIT} s of processor time"
                return {"engine": "rust", "seed": self.seed, "index": idx, "msg": f"case {idx} does not return: {what}", "confirmed": kinds}
            if "broken" in kinds:
                return {"engine": "rust", "seed": self.seed, "index": idx, "msg": runs[kinds.index("broken")][1], "confirmed": kinds}
            raise NoVerdict(f"a worker stopped at case {idx}; repeated alone: {runs}")
        for w in procs:
            if w["code"] != 0:
                with open(w["out"] + ".err", errors="replace") as f:
                    raise NoVerdict(f"worker ended with {w['code']}: {f.read()[-1500:]}")
        self.distinct()
        return None

    def run(self):
        self.vh = build.harness(self.scratch)
        phases = [self.rust]
        if self.id in ("B01", "B02", "B03"):
            import pyphase
            phases = [lambda: pyphase.run(self)]
        if self.id == "M02":
            import foreign
            phases.append(lambda: foreign.run(self))
        if self.id == "S03":
            import races
            phases.append(lambda: races.run(self))
        doubt = None
        for p in phases:
            try:
                bad = p()
            except NoVerdict as e:
                doubt = doubt or e
                continue
            if bad:
                return self.violation(bad)
        if doubt:
            raise doubt
        if self.cov["evaluations"] == 0 or self.cov["distinct_nontrivial"] == 0:
            raise NoVerdict("nothing was explored")
        return self.held()


def replay(path):
    with open(path) as f:
        d = json.load(f)
    c = Check(d["property"])
    try:
        c.vh = build.harness(c.scratch)
        if d.get("engine") == "foreign":
            import foreign
            return foreign.replay(c, d)
        if d.get("engine") == "python":
            import pyphase
            return pyphase.replay(c, d)
        if d.get("engine") == "history":
            return 1 if c.history(d["seed"], d["index"], d["shards"]) else 0
        if d.get("engine") == "races":
            import races
            return 1 if races.run(c) else 0
        kind, text = isolated([c.vh, "replay", path], c.scratch)
        print(kind, text)
        return {"held": 0, "unknown": 2}.get(kind, 1)
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


def main():
    if sys.argv[1:2] == ["--setup"]:
        build.setup()
        return 0
    if sys.argv[1:2] == ["--replay"]:
        return replay(sys.argv[2])
    c = Check(sys.argv[1])
    try:
        return c.run()
    except (NoVerdict, build.BuildError) as e:
        log(f"{c.id}: no verdict: {e}")
        c.evidence(0)
        return 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # an error of the check is never a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
