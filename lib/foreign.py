"""MO images written by the library, read by independent MO readers."""
import gettext
import json
import os
import shutil
import subprocess

MSGUNFMT = "/usr/bin/msgunfmt"


def key(e):
    k = e["id"]
    return e["ctx"] + "\x04" + k if e["ctx"] is not None else k


def with_gettext(case):
    """What Python's gettext finds in the image, against the catalogue."""
    with open(case["path"], "rb") as f:
        try:
            t = gettext.GNUTranslations(f)
        except Exception as e:
            return f"Python's gettext rejects the image: {type(e).__name__} {e}"
    cat = t._catalog
    want = {}
    for e in case["entries"]:
        if e["plural"] is not None:
            for i, s in enumerate(e["strs"] or [""]):
                want[(key(e), i)] = s
        else:
            want[key(e)] = e["str"] or ""
    got = {k: v for k, v in cat.items() if k != ""}
    if got != want:
        miss = [k for k in want if got.get(k) != want[k]][:3]
        extra = [k for k in got if k not in want][:3]
        return f"Python's gettext finds other messages: wrong or missing {[(k, want[k], got.get(k)) for k in miss]!r}, unexpected {extra!r}"
    info = t.info()
    for k, v in case["metadata"].items():
        if info.get(k.lower().strip()) != v and plain(k, v, case["metadata"]):
            return f"Python's gettext reads metadata {k!r} as {info.get(k.lower().strip())!r}, not {v!r}"
    return None


def plain(k, v, m):
    low = [x.lower() for x in m]
    return k.isascii() and v.isascii() and k.isprintable() and v.isprintable() and ":" not in k and k == k.strip() \
        and v == v.strip() and low.count(k.lower()) == 1 and not k.startswith("#-#-#-#-#")


def with_msgunfmt(case):
    p = subprocess.run([MSGUNFMT, "--force-po", "-o", "-", case["path"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env={"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8"}, timeout=60)
    if p.returncode < 0:
        return None
    if p.returncode != 0:
        return "msgunfmt rejects the image: " + p.stderr.decode("utf-8", "replace")[:400]
    n = sum(1 for l in p.stdout.split(b"\n") if l.startswith(b"msgid ") or l == b"msgid")
    want = len(case["entries"]) + 1
    if n != want:
        return f"msgunfmt finds {n} messages, the catalogue has {want}"
    return None


def run(check):
    cases = 600 if check.tier == "quick" else 5000
    d = os.path.join(check.scratch, "images")
    os.makedirs(d)
    out = subprocess.run([check.vh, "images", "--cases", str(cases), "--seed", str(check.seed), "--dir", d],
                         stdout=subprocess.PIPE)
    if out.returncode != 0:
        raise RuntimeError("images could not be written")
    for n, case in enumerate(json.loads(out.stdout)):
        msg = with_gettext(case)
        check.count("images_read_by_python_gettext")
        if msg is None and n % 4 == 0 and case["revision"] == 0 and os.path.exists(MSGUNFMT):
            msg = with_msgunfmt(case)
            check.count("images_read_by_msgunfmt")
        if msg:
            with open(case["path"], "rb") as f:
                case["image_hex"] = f.read().hex()
            return {"engine": "foreign", "seed": check.seed, "index": n, "msg": f"{msg}; catalogue {json.dumps(case['entries'])[:800]}", "case": case}
    shutil.rmtree(d)
    return None


def replay(check, data):
    """The same generated catalogue, written again by the current tree."""
    d = os.path.join(check.scratch, "images")
    os.makedirs(d)
    out = subprocess.run([check.vh, "images", "--cases", str(data["index"] + 1), "--seed", str(data["seed"]), "--dir", d],
                         stdout=subprocess.PIPE, check=True)
    case = json.loads(out.stdout)[data["index"]]
    msg = with_gettext(case) or (case["revision"] == 0 and with_msgunfmt(case))
    print(msg or "held")
    return 1 if msg else 0
