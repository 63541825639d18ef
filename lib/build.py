"""Builds the harness and the Python module from the working tree of /repo."""
import fcntl
import hashlib
import os
import shutil
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
PYTHON = "/opt/vp/venv/bin/python"


class BuildError(Exception):
    pass


def env(target, toolchain=STABLE, **more):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=toolchain,
             PYO3_PYTHON=PYTHON, CARGO_TERM_COLOR="never")
    e.update(more)
    return e


def sources(dirs):
    """Digest of everything that decides what gets built."""
    h = hashlib.sha256()
    for d in dirs:
        for root, subs, files in os.walk(d):
            subs[:] = sorted(s for s in subs if s not in (".git", "target", "tests-data", "__pycache__"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Locked:
    def __init__(self, target):
        os.makedirs(target, exist_ok=True)
        self.f = open(os.path.join(target, ".verif-lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo(cwd, args, e):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(f"cargo {' '.join(args)} failed:\n" + p.stdout.decode("utf-8", "replace")[-4000:])


def fresh(cwd, target, digest, packages, args, e):
    """Build; when the sources changed, by content, rebuild their packages."""
    stamp = os.path.join(target, ".verif-stamp")
    old = None
    if os.path.exists(stamp):
        with open(stamp) as f:
            old = f.read()
    if old != digest:
        if old is not None:
            os.remove(stamp)
        clean = ["clean", "--offline"] + [a for p in packages for a in ("-p", p)] + [a for a in args if a == "--release"]
        if "--target" in args:
            clean += ["--target", args[args.index("--target") + 1]]
        subprocess.run(["cargo"] + clean, cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cargo(cwd, ["build", "--offline"] + args, e)
    with open(stamp, "w") as f:
        f.write(digest)


def harness(scratch, copy=True):
    target = os.path.join(HERE, "target")
    crate = os.path.join(HERE, "harness")
    with Locked(target):
        fresh(crate, target, sources([REPO, crate]), ["rspolib", "vh"], ["--release"], env(target))
        src = os.path.join(target, "release", "vh")
        if not copy:
            return src
        dst = os.path.join(scratch, "vh")
        shutil.copy2(src, dst)
        return dst


def pymodule(scratch):
    """Returns a directory holding the importable module."""
    target = os.path.join(HERE, "target-py")
    with Locked(target):
        fresh(REPO, target, sources([REPO]), ["rspolib", "py-rspolib"], ["--release", "-p", "py-rspolib"], env(target))
        d = os.path.join(scratch, "pylib")
        os.makedirs(d, exist_ok=True)
        shutil.copy2(os.path.join(target, "release", "librspolib.so"), os.path.join(d, "rspolib.so"))
        return d


def setup():
    harness(None, copy=False)
    target = os.path.join(HERE, "target-py")
    with Locked(target):
        fresh(REPO, target, sources([REPO]), ["rspolib", "py-rspolib"], ["--release", "-p", "py-rspolib"], env(target))
    import races
    try:
        races.setup()
    except BuildError as e:
        # the other checks do not need the detectors
        print(f"race detectors not built: {e}")
