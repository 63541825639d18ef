"""Drives the Python module next to the core library (run by pyphase.py).

Takes the arguments of a harness worker plus --vh PROGRAM and --pylib DIR.
With --replay FILE only the case recorded there is repeated.
"""
import ctypes
import gc
import hashlib
import json
import os
import random
import shutil
import struct
import subprocess
import sys
import time
import zlib


class Broken(Exception):
    pass


class Skip(Exception):
    pass


class CoreGone(Exception):
    pass


class Left(Exception):
    pass


def args():
    a = {}
    it = iter(sys.argv[2:])
    for x in it:
        if x == "--thorough":
            a["thorough"] = True
        else:
            a[x[2:]] = next(it)
    return a


A = args()
sys.path.insert(0, A["pylib"])
import rspolib  # noqa: E402

MAGIC, SWAPPED = 0x950412DE, 0xDE120495
FIELDS = {
    "po": ["msgid", "msgstr", "msgid_plural", "msgctxt", "obsolete", "comment", "tcomment",
           "previous_msgid", "previous_msgid_plural", "previous_msgctxt", "linenum"],
    "mo": ["msgid", "msgstr", "msgid_plural", "msgctxt"],
}
LISTS = {"po": ["msgstr_plural", "occurrences", "flags"], "mo": ["msgstr_plural"]}
ENTRY = {"po": rspolib.POEntry, "mo": rspolib.MOEntry}
CLASS = {"po": rspolib.POFile, "mo": rspolib.MOFile}
BY = {"po": ["msgid", "msgstr", "msgctxt", "msgid_plural", "previous_msgid", "previous_msgid_plural", "previous_msgctxt"],
      "mo": ["msgid", "msgstr", "msgctxt", "msgid_plural"]}
CMP = {"po": ["msgid", "msgstr", "msgctxt", "obsolete", "msgid_plural", "msgstr_plural", "occurrences", "flags"],
       "mo": ["msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr_plural"]}


class Core:
    """The core library, asked over the line protocol of `vh serve`."""

    def __init__(self):
        self.p = subprocess.Popen([A["vh"], "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, **q):
        self.p.stdin.write(json.dumps(q).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise CoreGone("the core library server ended")
        r = json.loads(line)
        if isinstance(r, dict) and "bad" in r:
            raise CoreGone(f"bad request {q}")
        return r


COUNT = {}


def ev(name, n=1):
    COUNT[name] = COUNT.get(name, 0) + n


def need(ok, *what):
    if not ok:
        raise Broken(" ".join(str(w)[:1500] for w in what))


# -- data ----------------------------------------------------------------

WORDS = ["", "a", "b", "msgid", "hello world", "%s of %d files", "ctx", "ctx\x04id", "line\nline", "tab\there", "quote\"d", "back\\slash",
         "é", "日本語のテキスト", "😀", "x" * 90, "trailing ", " leading", "\n", "\r\n", "\0", "a\0b", "fuzzy", "c-format", "word " * 20, "Ünïcödé " * 11,
         "\u0301", "\ufeff", "\u2028", "#, fuzzy", "msgid \"x\"", "\\n", "\b\v\f\a"]


def text(r):
    k = r.random()
    if k < 0.55:
        return r.choice(WORDS)
    if k < 0.7:
        return r.choice(WORDS) + r.choice(WORDS)
    if k < 0.9:
        return "".join(r.choice("abc \n\"\\\t日é") for _ in range(r.randrange(12)))
    return "".join(chr(r.choice([r.randrange(1, 0x80), r.randrange(0xA0, 0xD7FF), r.randrange(0x10000, 0x10FFFF)])) for _ in range(r.randrange(6)))


KEYS = ["Project-Id-Version", "Content-Type", "Plural-Forms", "Language", "X-A", "X-10", "X-9", "MIME-Version", "a", "B", "language", "x-a", "A", "b", "X-A "]


def long_text(r):
    return text(r) * r.choice([40, 300, 1500]) + r.choice(["", "end", "\n"])


def opt(r, p=0.5):
    return text(r) if r.random() < p else None


def gen_entry(r, kind):
    small = r.random() < 0.5
    t = (lambda: r.choice(["a", "b", "c", ""])) if small else (lambda: text(r))
    e = {"msgid": t(), "msgstr": t() if r.random() < 0.7 else None, "msgid_plural": t() if r.random() < 0.3 else None,
         "msgctxt": t() if r.random() < 0.4 else None, "msgstr_plural": [t() for _ in range(r.choice([0, 0, 0, 1, 2, 3]))]}
    if kind == "po":
        e.update(obsolete=r.random() < 0.2, comment=opt(r, 0.2), tcomment=opt(r, 0.2), previous_msgid=opt(r, 0.1),
                 previous_msgid_plural=opt(r, 0.1), previous_msgctxt=opt(r, 0.1), linenum=r.choice([0, 0, 0, 1, 7, 2 ** 40]),
                 occurrences=[[r.choice(["a.c", "dir/b.py", "c d.c", ""]), r.choice(["1", "20", "", "x"])] for _ in range(r.choice([0, 0, 1, 2, 5]))],
                 flags=[r.choice(["fuzzy", "c-format", "python-format", "no-wrap", "x"]) for _ in range(r.choice([0, 0, 0, 1, 2]))])
    if r.random() < 0.02:
        e["msgstr_plural"] = [text(r) for _ in range(r.randrange(40))]
        if kind == "po":
            e["occurrences"] = [[r.choice(["a.c", "b c.py", text(r)]), str(r.randrange(10 ** r.randrange(1, 12)))] for _ in range(r.randrange(60))]
            e["flags"] = [r.choice(["fuzzy", "Fuzzy", " fuzzy", "c-format", text(r)]) for _ in range(r.randrange(30))]
    if r.random() < 0.01:
        e[r.choice(FIELDS[kind][:4])] = long_text(r)
    return e


def gen_meta(r):
    return {r.choice(KEYS): text(r) for _ in range(r.randrange(4))}


def gen_field(r, kind):
    f = r.choice(FIELDS[kind] + LISTS[kind])
    return f, gen_entry(r, kind)[f]


def gen_ops(r):
    kind = r.choice(["po", "po", "mo"])
    src = r.choice(["empty", "none", "text", "path"])
    ops = [["new", kind, src, r.getrandbits(60), r.choice([78, 78, 20, 0, 1, 200, 2 ** 31])]]
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        ops.append(["append", gen_entry(r, kind), r.random() < 0.5])
    if r.random() < 0.01:
        ops.append(["entries", [gen_entry(r, kind) for _ in range(r.choice([65, 130, 260]))], True])
    for _ in range(r.randrange(1, 9)):
        i = r.randrange(1 << 16)
        k = r.randrange(20)
        if k < 3:
            ops.append(["append", gen_entry(r, kind), r.random() < 0.5])
        elif k == 3:
            ops.append(["again", i])
        elif k == 4:
            ops.append(["entries", [gen_entry(r, kind) for _ in range(r.randrange(4))], r.random() < 0.5])
        elif k == 5:
            ops.append(["edit", i, *gen_field(r, kind)])
        elif k == 6:
            ops.append(["replace", i, *gen_field(r, kind)])
        elif k == 7:
            ops.append(["remove", i, list(gen_field(r, kind)) if r.random() < 0.4 else None])
        elif k == 8:
            ops.append(["remove_by", i, r.choice(["a", "b", "c", "", text(r), None]), r.choice([None, None, "", "a", "b", text(r)]), r.random() < 0.5])
        elif k < 11:
            ops.append(["find", i, r.choice(BY[kind] + ["nothing"]), r.choice(["", "a", text(r), None, None, None]), r.random() < 0.5,
                        r.choice([None, None, "", "a", "own"])])
        elif k == 11:
            ops.append(["meta", gen_meta(r)])
        elif k == 12:
            ops.append(["meta_update", gen_meta(r)])
        elif k == 13:
            ops.append(["meta_remove", r.choice(KEYS)])
        elif k == 14:
            ops.append(["wrapwidth", r.choice([78, 0, 1, 5, 30, 100, 2 ** 33])])
        elif k == 15 and kind == "po":
            ops.append(r.choice([["header", r.choice([None, text(r), "one\ntwo"])], ["meta_fuzzy", r.random() < 0.5]]))
        elif k == 16:
            ops.append(["contains", gen_entry(r, kind) if r.random() < 0.5 else i])
        elif k == 17:
            ops.append(["iterate", i])
        elif k == 18:
            ops.append(["compare", i, r.randrange(1 << 16), {f: r.random() < 0.5 for f in CMP[kind]}, list(gen_field(r, kind)) if r.random() < 0.5 else None])
        else:
            ops.append(["merge", i, gen_entry(r, kind)])
    return ops


# -- conversions ----------------------------------------------------------

def read(kind, e):
    d = {f: getattr(e, f) for f in FIELDS[kind]}
    for f in LISTS[kind]:
        d[f] = getattr(e, sys.intern("get_" + f))()
    if kind == "po":
        d["occurrences"] = [list(o) for o in d["occurrences"]]
    return d


def put(e, f, v):
    setattr(e, sys.intern(f), [tuple(o) for o in v] if f == "occurrences" else v)


def make(kind, d, ctor):
    if ctor:
        names = ["msgid", "msgstr", "msgid_plural", "msgstr_plural", "msgctxt"] + (["tcomment", "comment", "flags"] if kind == "po" else [])
        # some arguments by position, those of the default value sometimes left out
        how = zlib.crc32(json.dumps(d).encode())
        first = how % 3 and how // 3 % (len(names) + 1)
        default = {n: "" if n == "msgid" else [] if n in LISTS[kind] else None for n in names}
        e = ENTRY[kind](*[d[n] for n in names[:first]], **{n: d[n] for n in names[first:] if how & 64 or d[n] != default[n]})
        rest = [f for f in FIELDS[kind] + LISTS[kind] if f not in names]
    else:
        e = ENTRY[kind]()
        rest = FIELDS[kind] + LISTS[kind]
    for f in rest:
        put(e, f, d[f])
    got = read(kind, e)
    ev("entries built and read back")
    need(got == d, "entry built with", d, "reads back", got)
    return e


class Run:
    def __init__(self, core, scratch):
        self.core, self.scratch = core, scratch
        self.sig = hashlib.sha256()
        self.f = None

    def go(self, ops):
        for op in ops:
            ev("operation " + op[0])
            getattr(self, sys.intern("do_" + op[0]))(*op[1:])
            self.same()
            self.sig.update(json.dumps([op[0], len(self.m["entries"])]).encode())
        self.full()

    def ask(self, op, **q):
        r = self.core.ask(op=op, kind=self.kind, **q)
        if isinstance(r, dict) and "panic" in r:
            # outside what the core library answers: nothing to compare with
            raise Skip(r["panic"])
        return r

    def at(self, i):
        n = len(self.m["entries"])
        return i % n if n else None

    def out(self, e):
        return None if e is None else read(self.kind, e)

    # the state seen through every reading route
    def same(self):
        f, m, k = self.f, self.m, self.kind
        got = [read(k, e) for e in f.get_entries()]
        need(got == m["entries"], "entries are", got, "expected", m["entries"])
        need(len(f) == len(got), "length", len(f), "for", len(got), "entries")
        need(f.get_metadata() == m["metadata"], "metadata", f.get_metadata(), "expected", m["metadata"])
        need(f.path_or_content == self.arg, "path_or_content", repr(f.path_or_content), "expected", repr(self.arg))
        content = f.bytes_content if k == "po" else f.byte_content
        need(content is None, "content given as bytes", repr(content), "of a file read from a text argument")
        need(f.wrapwidth == m["wrapwidth"], "wrap width", f.wrapwidth, "expected", m["wrapwidth"])
        if k == "po":
            need(f.header == (m["header"] or ""), "header", repr(f.header), "expected", repr(m["header"]))
            need(f.metadata_is_fuzzy == m["metadata_is_fuzzy"], "metadata_is_fuzzy", f.metadata_is_fuzzy)
        else:
            need((f.MAGIC, f.MAGIC_SWAPPED) == (MAGIC, SWAPPED), "magic numbers of the class", hex(f.MAGIC), hex(f.MAGIC_SWAPPED))
            need(f.magic_number == (m["magic"] if m.get("magic") is not None else MAGIC), "magic number", hex(f.magic_number))
            need(f.version == (m.get("version") or 0), "version", f.version)

    def full(self):
        f, m, k = self.f, self.m, self.kind
        n = len(m["entries"])
        it = [read(k, e) for e in f]
        need(it == m["entries"], "iteration gives", it, "expected", m["entries"])
        by = [read(k, f[i]) for i in range(n)]
        need(by == m["entries"], "indexing gives", by, "expected", m["entries"])
        for past in (n, n + 1, 10 ** 9):
            try:
                f[past]
                raise Broken(f"index {past} of a file of {n} entries raised nothing")
            except IndexError:
                pass
        r = self.ask("render", file=m)
        need(str(f) == r["text"], "str() gives", repr(str(f)), "core", repr(r["text"]))
        le, be = bytes.fromhex(r["le"]), bytes.fromhex(r["be"])
        need(bytes(f.as_bytes()) == le, "as_bytes differs from the core library")
        need(bytes(f.as_bytes_le()) == le, "as_bytes_le differs from the core library")
        need(bytes(f.as_bytes_be()) == be, "as_bytes_be differs from the core library")
        if hasattr(f, "as_bytes_with"):
            need(bytes(f.as_bytes_with(SWAPPED if k == "mo" else MAGIC, 1)) == bytes.fromhex(r["with"]), "as_bytes_with differs from the core library")
            how = zlib.crc32(r["text"].encode())
            magic, revision = (MAGIC, SWAPPED)[how & 1], (0, 1, 2, 255, 65536, 2 ** 31, 2 ** 32 - 1)[how % 7]
            want = bytes.fromhex(self.ask("bytes", file=m, magic=magic, revision=revision))
            need(bytes(f.as_bytes_with(magic, revision)) == want, f"as_bytes_with({magic:#x}, {revision}) differs from the core library")
        need(read(k, f.metadata_as_entry()) == r["metadata_entry"], "metadata_as_entry", read(k, f.metadata_as_entry()), "core", r["metadata_entry"])
        if k == "po":
            for name in ("translated", "untranslated", "fuzzy", "obsolete"):
                got = [read(k, e) for e in getattr(f, sys.intern(name + "_entries"))()]
                need(got == r[name], name, "entries", got, "core", r[name])
            need(struct.pack("f", f.percent_translated()) == struct.pack("f", r["percent"]), "percent", f.percent_translated(), "core", r["percent"])
        for name, data in (("save", r["text"].encode() if k == "po" else le), ("save_as_pofile", r["text"].encode()), ("save_as_mofile", le)):
            p = os.path.join(self.scratch, ("saved", "saved é 日本", "saved.mo", "saved.po", " saved ")[len(data) % 5])
            with open(p, "wb") as fh:
                fh.write(b"old contents " * 300)
            getattr(f, name)(p)
            with open(p, "rb") as fh:
                got = fh.read()
            need(got == data, name, "wrote", got, "expected", data)
        how = zlib.crc32(r["text"].encode())
        for j in range(min(n, 4)):
            i = (how % n + j) % n
            d, e = m["entries"][i], f[i]
            w = (78, 20, 0, 60, 1, 77, 79, 2 ** 40)[(how + j * 3) % 8]
            r = self.ask("entry", entry=d, wrapwidth=w)
            need(str(e) == r["text"], "entry text", repr(str(e)), "core", repr(r["text"]))
            need(e.to_string_with_wrapwidth(w) == r["wrapped"], "entry text at", w, repr(e.to_string_with_wrapwidth(w)), "core", repr(r["wrapped"]))
            need(e.msgid_eot_msgctxt() == r["eot"], "msgid_eot_msgctxt", e.msgid_eot_msgctxt(), "core", r["eot"])
            need(e.translated() == r["translated"], "translated()", e.translated(), "core", r["translated"])
            if k == "po":
                fz = e.fuzzy() if callable(e.fuzzy) else e.fuzzy
                need(fz == r["fuzzy"], "fuzzy", fz, "core", r["fuzzy"])
            ev("entries rendered and compared")
        self.same()
        ev("files rendered and compared")

    # operations
    def do_new(self, kind, src, seed, w):
        self.kind = kind
        r = random.Random(seed)
        empty = {"entries": [], "metadata": {}, "wrapwidth": w}
        if kind == "po":
            empty.update(header=None, metadata_is_fuzzy=False)
        self.m, self.arg = empty, ""
        if src == "none":
            self.f = CLASS[kind]()
            self.m["wrapwidth"] = 78
            return
        if src == "empty":
            self.f = CLASS[kind]("", w)
            return
        m = dict(empty, entries=[gen_entry(r, kind) for _ in range(r.randrange(5))], metadata=gen_meta(r), wrapwidth=78)
        if kind == "po":
            m["header"] = opt(r)
        img = self.ask("render", file=m)
        arg = img["text"]
        if src == "path" or kind == "mo":
            arg = os.path.join(self.scratch, f"in.{kind}")
            with open(arg, "wb") as fh:
                fh.write(img["text"].encode() if kind == "po" else bytes.fromhex(img[r.choice(["le", "be", "with"])]))
        want = self.ask("parse_" + kind, arg=arg, wrapwidth=w)
        need_ok = "ok" in want
        how = r.choice([CLASS[kind], getattr(rspolib, sys.intern(kind + "file"))])
        try:
            self.f = how(arg, wrapwidth=w) if r.random() < 0.5 else how(arg, w)
        except Exception as e:
            need(not need_ok, f"{how.__name__} raised {e!r}, the core library reads the same input")
            raise Skip("unreadable input")
        need(need_ok, f"{how.__name__} read what the core library rejects: {want}")
        self.m = want["ok"]
        self.arg = arg

    def do_append(self, d, ctor):
        e = make(self.kind, d, ctor)
        self.f.append(e)
        self.m["entries"] = self.m["entries"] + [d]
        # the file holds a copy
        before = read(self.kind, e)
        e.msgid = e.msgid + "!"
        e.msgstr_plural = ["changed"]
        need(read(self.kind, self.f[len(self.m["entries"]) - 1]) == before, "changing an entry after appending it changed the file")

    def do_again(self, i):
        i = self.at(i)
        if i is not None:
            self.f.append(self.f[i])
            self.m["entries"] = self.m["entries"] + [self.m["entries"][i]]

    def do_entries(self, ds, ctor):
        es = [make(self.kind, d, ctor) for d in ds]
        self.f.entries = es
        self.m["entries"] = list(ds)
        for e in es:
            e.msgid = "changed later"

    def do_edit(self, i, field, value):
        i = self.at(i)
        if i is None:
            return
        routes = [lambda: self.f[i], lambda: self.f.get_entries()[i], lambda: list(self.f)[i]]
        e = routes[i % 3]()
        put(e, field, value)
        d = dict(self.m["entries"][i], **{field: value})
        need(read(self.kind, e) == d, "setting", field, "gives", read(self.kind, e), "expected", d)
        # same() then sees that the file did not change
        ev("copies changed")

    def do_replace(self, i, field, value):
        i = self.at(i)
        if i is None:
            return
        es = self.f.get_entries()
        put(es[i], field, value)
        self.f.entries = es
        ds = list(self.m["entries"])
        ds[i] = dict(ds[i], **{field: value})
        self.m["entries"] = ds

    def do_remove(self, i, change):
        i = self.at(i)
        if i is None:
            return
        d = dict(self.m["entries"][i])
        if change:
            d[change[0]] = change[1]
        r = self.ask("query", what="remove", file=self.m, entry=d)
        self.f.remove(make(self.kind, d, i % 2 == 0))
        self.m["entries"] = r["entries"]

    def do_remove_by(self, i, v, ctx, own):
        i = self.at(i)
        if v is None or own:
            v = self.m["entries"][i]["msgid"] if i is not None else "a"
            if own:
                ctx = self.m["entries"][i]["msgctxt"] if i is not None else None
        what = "remove_by_msgid" if ctx is None else "remove_by_msgid_msgctxt"
        r = self.ask("query", what=what, file=self.m, value=v, msgctxt=ctx)
        getattr(self.f, what)(*([v] if ctx is None else [v, ctx]))
        self.m["entries"] = r["entries"]

    def do_find(self, i, by, v, obsolete, ctx):
        i = self.at(i)
        d = self.m["entries"][i] if i is not None else gen_entry(random.Random(1), self.kind)
        if v is None:
            v = d.get(by) or ""
        if ctx == "own":
            ctx = d["msgctxt"]
        want = self.ask("query", what="find", file=self.m, value=v, by=by, obsolete=obsolete, msgctxt=ctx)
        if self.kind == "po":
            got = self.f.find(v, by, obsolete, ctx) if len(v) % 2 else self.f.find(v, by=by, include_obsolete_entries=obsolete, msgctxt=ctx)
        else:
            got = self.f.find(v, by, ctx) if len(v) % 2 else self.f.find(v, by=by, msgctxt=ctx)
        got = [self.out(e) for e in got]
        need(got == want, "find", repr(v), by, obsolete, repr(ctx), "gives", got, "core", want)
        ev("entries found", len(got))
        if by == "msgid" and ctx is None and (self.kind == "mo" or not obsolete):
            need([self.out(e) for e in self.f.find(v)] == want, "find with default arguments differs for", repr(v))
        want = self.ask("query", what="find_by_msgid", file=self.m, value=v)
        need(self.out(self.f.find_by_msgid(v)) == want, "find_by_msgid", repr(v), self.out(self.f.find_by_msgid(v)), "core", want)
        c = ctx if ctx is not None else ""
        want = self.ask("query", what="find_by_msgid_msgctxt", file=self.m, value=v, msgctxt=c)
        got = self.out(self.f.find_by_msgid_msgctxt(v, c))
        need(got == want, "find_by_msgid_msgctxt", repr(v), repr(c), got, "core", want)

    def do_meta(self, d):
        self.f.metadata = dict(d)
        self.m["metadata"] = dict(d)
        self.f.get_metadata()["X-Copy"] = "1"

    def do_meta_update(self, d):
        self.f.update_metadata(dict(d))
        self.m["metadata"] = dict(self.m["metadata"], **d)

    def do_meta_remove(self, k):
        self.f.remove_metadata_field(k)
        self.m["metadata"] = {a: b for a, b in self.m["metadata"].items() if a != k}

    def do_meta_fuzzy(self, v):
        self.f.metadata_is_fuzzy = v
        self.m["metadata_is_fuzzy"] = v

    def do_header(self, v):
        self.f.header = v
        self.m["header"] = v

    def do_wrapwidth(self, v):
        self.f.wrapwidth = v
        self.m["wrapwidth"] = v

    def do_contains(self, x):
        if isinstance(x, int):
            i = self.at(x)
            if i is None:
                return
            x = self.m["entries"][i]
            need(make(self.kind, x, True) in self.f or self.kind == "po" and x["obsolete"], "an entry of the file is not a member of it:", x)
        if x["msgctxt"] is None:
            want = self.ask("query", what="find_by_msgid", file=self.m, value=x["msgid"])
        else:
            want = self.ask("query", what="find_by_msgid_msgctxt", file=self.m, value=x["msgid"], msgctxt=x["msgctxt"])
        got = make(self.kind, x, True) in self.f
        need(got == (want is not None), "membership of", x, "is", got, "but looking it up gives", want)

    def do_iterate(self, i):
        # several iterations at once, with the file changing below them
        it, other = iter(self.f), iter(self.f)
        got, got2 = [], []
        add = make(self.kind, gen_entry(random.Random(i), self.kind), True)
        want = list(self.m["entries"])
        for n, e in enumerate(it):
            got.append(read(self.kind, e))
            e.msgid = "changed while iterating"
            x = next(other, None)
            if x is not None:
                got2.append(read(self.kind, x))
            if n == 0:
                self.f.append(add)
                self.m["entries"] = self.m["entries"] + [read(self.kind, add)]
        need(got == want, "iteration gives", got, "expected", want)
        need(got2 == want, "second iteration gives", got2, "expected", want)
        need(next(it, None) is None, "a finished iterator went on")

    def do_compare(self, i, j, fields, change):
        i, j = self.at(i), self.at(j)
        if i is None:
            return
        k = self.kind
        a, b = self.m["entries"][i], dict(self.m["entries"][i if change else j])
        if change:
            b[change[0]] = change[1]
        pa, pb = self.f[i], make(k, b, False)
        c = self.ask("cmp", a=a, b=b, options=fields)
        need(pa.cmp_by(pb, **fields) == c, "cmp_by", fields, "gives", pa.cmp_by(pb, **fields), "core", c, "for", a, b)
        need(pa.cmp_by(pb, *[fields[f] for f in CMP[k]]) == c, "cmp_by by position", fields, "core", c, "for", a, b)
        only = {f: True for f in fields}
        c = self.ask("cmp", a=a, b=b, options=only)
        got = [pa.cmp_by(pb), pa == pb, pa != pb, pa < pb, pa <= pb, pa > pb, pa >= pb]
        want = [c, c == 0, c != 0, c < 0, c <= 0, c > 0, c >= 0]
        need(got == want, "comparisons give", got, "core", want, "for", a, b)
        if hasattr(pa, "__cmp__"):
            need(pa.__cmp__(pb) == c, "__cmp__ gives", pa.__cmp__(pb), "core", c, "for", a, b)
        ev(f"comparisons with result {c}")
        # files compare by content
        g = CLASS[k]("", self.m["wrapwidth"])
        g.entries = self.f.get_entries()
        g.metadata = self.f.get_metadata()
        if k == "po":
            g.header = self.m["header"]
            g.metadata_is_fuzzy = self.m["metadata_is_fuzzy"]
        need(g == self.f and not g != self.f, "two files of the same contents differ")
        es = g.get_entries()
        changes = [("entries", es + [make(k, dict(b, msgid=b["msgid"] + "other"), False)]), ("entries", es[:-1]), ("entries", es[::-1]),
                   ("entries", es[:i] + [pb] + es[i + 1:]), ("metadata", dict(self.m["metadata"], **{"X-Other": "1"})), ("wrapwidth", 20), ("wrapwidth", 2000)]
        if k == "po":
            changes += [("header", (self.m["header"] or "") + "other"), ("metadata_is_fuzzy", not self.m["metadata_is_fuzzy"])]
        was = {"entries": es, "metadata": self.m["metadata"], "wrapwidth": self.m["wrapwidth"], "header": self.m.get("header"), "metadata_is_fuzzy": self.m.get("metadata_is_fuzzy")}
        for name, value in changes:
            setattr(g, name, value)
            need((g == self.f) is not (g != self.f) and (g == self.f) is (self.f == g), "file comparisons contradict each other after changing", name)
            if str(g) != str(self.f):
                need(g != self.f, "files of different contents are equal, differing in", name)
                ev("unequal files compared")
            setattr(g, name, was[name])
        need(g == self.f and not g != self.f, "two files of the same contents differ")

    def do_merge(self, i, d):
        i = self.at(i)
        if i is None:
            return
        want = self.ask("merge", a=self.m["entries"][i], b=d)
        e, o = self.f[i], make(self.kind, d, False)
        e.merge(o)
        need(read(self.kind, e) == want, "merge gives", read(self.kind, e), "core", want)
        need(read(self.kind, o) == d, "merge changed its argument")


# -- hostile input --------------------------------------------------------

ODD = ["", ".", "/", "..", "/dev/null", "\0", "a\0b", "x" * 5000, "no/such/file.po", "no-such.mo", "/proc/self/mem-none", "msgid \"", "\"", "\\", "#", "#~", "#|", "msgstr[", "msgstr[0",
       "msgid \"a\"\nmsgstr[99999999999999999999] \"\"", "msgid \"a\nmsgstr \"b\"", "\ufeff", "\u2028msgid", "msgid \"\\", "msgid \"\\q\"", "#:", "#,", "#.", "\r", "msgctxt \"\"\"\"",
       "\udbff".encode("utf-8", "replace").decode()]


def gen_case(r):
    k = r.choices(["po", "po_path", "mo_path", "mo_text", "odd", "escape"], [4, 3, 4, 1, 2, 4])[0]
    c = {"k": k, "w": r.choice([None, 78, 0, 1, 2 ** 40]), "seed": r.getrandbits(60), "kw": r.random() < 0.5, "cut": None, "text": None}
    if k == "odd":
        c["text"] = r.choice(ODD) if r.random() < 0.7 else text(r)
    if k == "escape":
        c["text"] = "".join(r.choice(["\\", "\\", "n", "t", "r", "b", "v", "f", "a", "\"", "\n", "\t", "x", "é", "😀", "0", " ", "\0", text(r)]) for _ in range(r.randrange(9)))
    if r.random() < 0.1:
        c["cut"] = r.random()
    return c


def outcome(f, *a, **kw):
    try:
        return "ok", f(*a, **kw)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return "raised", e


def cut(b, c):
    return b if c["cut"] is None else b[: int(len(b) * c["cut"])]


def check_b02(core, scratch, c):
    k = c["k"]
    if k == "escape":
        for name in ("escape", "unescape"):
            want = core.ask(op=name, arg=c["text"])
            how, got = outcome(getattr(rspolib, name), c["text"])
            compare(name, c["text"], how, got, want, rspolib.EscapingError, lambda x: x)
        return ("escape", c["text"])
    if k == "odd":
        arg = c["text"]
    else:
        mo = k.startswith("mo")
        b = cut(bytes.fromhex(core.ask(op="generate", kind="mo" if mo else "po", seed=c["seed"])), c)
        if k.endswith("path"):
            arg = os.path.join(scratch, "in." + k[:2] if c["seed"] % 5 else "in é\u3042 .x")
            with open(arg, "wb") as fh:
                fh.write(b)
        else:
            arg = b.decode("utf-8", "replace").replace("\ufffd", "?" if c["seed"] % 2 else "\ufffd")
    if "\0" not in arg and len(arg) < 200 and os.path.exists(arg) and not arg.startswith(scratch) and not os.path.isdir(arg) and arg != "/dev/null":
        return None
    for kind in ("po", "mo"):
        want = core.ask(op="parse_" + kind, arg=arg, wrapwidth=78 if c["w"] is None else c["w"])
        exc = rspolib.SyntaxError if kind == "po" else rspolib.IOError
        for f in (CLASS[kind], getattr(rspolib, sys.intern(kind + "file"))):
            a, kw = [arg], {}
            if c["w"] is not None:
                if c["kw"]:
                    kw["wrapwidth"] = c["w"]
                else:
                    a.append(c["w"])
            how, got = outcome(f, *a, **kw)
            if f is CLASS[kind] and arg == "":
                # an empty file is promised here, whatever reading "" gives
                need(how == "ok" and len(got) == 0 and got.get_metadata() == {}, f"{f.__name__}('') gave {got!r}")
                continue
            compare(f.__name__, arg, how, got, want, exc, lambda x: view(kind, x))
            if how == "ok":
                n = len(got)
                for i in (n, n + 7, 2 ** 62):
                    h, e = outcome(got.__getitem__, i)
                    need(h == "raised" and type(e) is IndexError, f"index {i} of {n} entries: {h} {e!r}")
                ev("indexed past the end")
    for kind in ("po", "mo"):
        how, got = outcome(CLASS[kind])
        need(how == "ok" and len(got) == 0 and got.get_metadata() == {} and list(got) == [], f"{CLASS[kind].__name__}() gave {got!r}")
    return (k, arg if k != "po_path" and k != "mo_path" else b.hex())


def view(kind, f):
    d = {"entries": [read(kind, e) for e in f.get_entries()], "metadata": f.get_metadata(), "wrapwidth": f.wrapwidth}
    if kind == "po":
        d.update(header=f.header or None, metadata_is_fuzzy=f.metadata_is_fuzzy)
    else:
        d.update(magic=f.magic_number, version=f.version)
    return d


def compare(name, arg, how, got, want, exc, conv):
    if "panic" in want:
        # judged by the properties of the core library; the module still
        # must not let it out
        need(how == "ok" or isinstance(got, (rspolib.IOError, rspolib.SyntaxError, rspolib.EscapingError)), f"{name}({arg!r}) raised {type(got).__name__}: {got}")
        return
    if how == "raised":
        ev(f"{name} raised {type(got).__name__}")
        need(type(got) is exc, f"{name}({arg!r}) raised {type(got).__module__}.{type(got).__name__}: {got}; core: {want}")
        need("err" in want, f"{name}({arg!r}) raised {got!r}, the core library returns normally")
        need(str(got) == want["err"] and got.args == (want["err"],), f"{name}({arg!r}) raised message {got.args!r}, core {want['err']!r}")
        return
    ev(f"{name} returned")
    need("ok" in want, f"{name}({arg!r}) returned, the core library reports {want}")
    g, w = conv(got), want["ok"]
    if isinstance(w, dict):
        w = dict(w)
        if "header" in w:
            w["header"] = w["header"] or None
        if "magic" in w:
            w["magic"] = w["magic"] if w["magic"] is not None else MAGIC
            w["version"] = w["version"] or 0
    need(g == w, f"{name}({arg!r}) gave {g}, core {w}")


# -- what is left behind --------------------------------------------------

class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


MALLINFO = ctypes.CDLL(None).mallinfo2
MALLINFO.restype = Info


def usage():
    """Bytes in use (the caches of the allocator are switched off by the
    environment, see pyphase.py), open descriptors and threads."""
    gc.collect()
    i = MALLINFO()
    return i.uordblks + i.hblkhd, len(os.listdir("/proc/self/fd")), len(os.listdir("/proc/self/task"))


def fresh(x, mark):
    """The same data with other texts of the same size."""
    if isinstance(x, str):
        return x + mark
    if isinstance(x, dict):
        return {k: fresh(v, mark) for k, v in x.items()}
    return [fresh(v, mark) for v in x] if isinstance(x, list) else x


# arguments of operations that are names
NAMES = {"new": (1, 2), "edit": (2,), "replace": (2,), "find": (2,)}


def fresh_op(op, mark, k):
    new = [op[0]]
    for i, v in enumerate(op[1:], 1):
        if i in NAMES.get(op[0], ()) or v == "own":
            new.append(v)
        elif op[0] in ("remove", "compare") and isinstance(v, list):
            new.append([v[0], fresh(v[1], mark)])
        elif op[0] in ("meta", "meta_update"):
            new.append({n + mark: fresh(w, mark) for n, w in v.items()})
        elif op[0] == "new" and i == 3:
            new.append(v + k)
        else:
            new.append(fresh(v, mark))
    return new


def counted(kind, d):
    """No call keeps a reference to what it is given."""
    e, f = make(kind, d, False), CLASS[kind]()
    es, meta, forms = [e, e], {"Language": d["msgid"]}, list(d["msgstr_plural"])
    calls = [("append", lambda: f.append(e)), ("entries", lambda: setattr(f, "entries", es)), ("metadata", lambda: setattr(f, "metadata", meta)),
             ("update_metadata", lambda: f.update_metadata(meta)), ("msgstr_plural", lambda: setattr(e, "msgstr_plural", forms)),
             ("in", lambda: e in f), ("cmp_by", lambda: e.cmp_by(f[0])), ("==", lambda: f[0] == e), ("find", lambda: f.find(d["msgid"])),
             ("remove", lambda: f.remove(e)), ("iter", lambda: list(f)), ("next", lambda: next(iter(f), None)), ("str", lambda: str(f)), ("==", lambda: f == f)]
    for name, call in calls:
        before = [sys.getrefcount(x) for x in (e, f, es, meta, forms)]
        call()
        after = [sys.getrefcount(x) for x in (e, f, es, meta, forms)]
        if before != after:
            raise Left(f"{name} keeps references to its arguments: {before} before, {after} after")
    ev("calls with counted references", len(calls))


def round_of(core, scratch, case, k):
    mark, k = chr(0x4E00 + k), k if case["vary"] else 0
    if case["what"] == "ops":
        Run(core, scratch).go([fresh_op(op, mark, k) for op in case["ops"]])
    elif case["what"] == "refs":
        counted(case["kind"], fresh(case["entry"], mark))
    else:
        c = dict(case["case"], seed=case["case"]["seed"] + k)
        if c["text"] is not None and c["k"] == "escape":
            c["text"] += mark
        check_b02(core, scratch, c)


WARM, ROUNDS, MORE = 3, 5, 24


def check_b03(core, scratch, case):
    keep = [os.dup(1), os.dup(2)]
    outs = [os.open(os.path.join(scratch, n), os.O_RDWR | os.O_CREAT | os.O_TRUNC) for n in ("stdout", "stderr")]
    try:
        for fd in (1, 2):
            os.dup2(outs[fd - 1], fd)
        watch(lambda k: round_of(core, scratch, case, k))
    except (Left, OSError, CoreGone):
        raise
    except BaseException as e:
        # what the calls answer is not the matter here
        ev("skipped: " + type(e).__name__)
        return None
    finally:
        for fd in (1, 2):
            os.dup2(keep[fd - 1], fd)
        written = [os.fstat(o).st_size for o in outs]
        for fd in keep + outs:
            os.close(fd)
    if max(written):
        raise Left(f"{written[0]} bytes were written to standard output, {written[1]} to standard error")
    return json.dumps(case)


def watch(go):
    """Left, if every round keeps something in use."""
    for k in range(WARM):
        go(k)
    was = usage()
    for k in range(WARM, WARM + ROUNDS):
        go(k)
        now = usage()
        if all(b <= a for a, b in zip(was, now)):
            ev("cases settled after rounds: " + str(k))
            return
        was = now
    # every round left something: so do many more?
    ev("looked at more rounds")
    for k in range(WARM + ROUNDS, WARM + ROUNDS + MORE):
        go(k)
    grown = [b - a for a, b in zip(was, usage())]
    if grown[0] >= 16 * MORE:
        raise Left(f"{MORE} rounds leave {grown[0]} bytes in use")
    if max(grown[1:]) >= MORE:
        raise Left(f"{MORE} rounds leave {grown[1]} descriptors open and {grown[2]} threads running")


def gen_b03(r):
    k = r.randrange(8)
    case = {"what": "ops" if k < 4 else "refs" if k < 5 else "call", "vary": r.random() < 0.5}
    if k < 4:
        case["ops"] = gen_ops(r)
    elif k < 5:
        case["kind"] = r.choice(["po", "mo"])
        case["entry"] = gen_entry(r, case["kind"])
    else:
        case["case"] = gen_case(r)
    return case


# -- driver ---------------------------------------------------------------

def run_case(pid, core, scratch, case):
    """None, or the message of a violation; the signature of the case."""
    try:
        if pid == "B01":
            run = Run(core, scratch)
            try:
                run.go(case)
            except Skip:
                ev("skipped: core library gives no answer")
                return None, None
            return None, json.dumps(case)
        if pid == "B03":
            return None, check_b03(core, scratch, case)
        sig = check_b02(core, scratch, case)
        return None, (repr(sig) if sig else None)
    except (Broken, Left) as e:
        return str(e), None
    except OSError:
        raise
    except BaseException as e:
        # what the module raised where the core library just answers
        t = type(e)
        if t.__module__.startswith("pyo3") or t.__module__ == "rspolib" or t in (TypeError, OverflowError, AttributeError, ValueError, RuntimeError, IndexError):
            import traceback
            return "".join(traceback.format_exception(e))[-1500:], None
        raise


def shrink(pid, core, scratch, case, msg):
    if pid != "B01":
        return case, msg
    end = time.time() + 15
    progress = True
    while progress and time.time() < end:
        progress = False
        for i in range(len(case) - 1, 0, -1):
            t = case[:i] + case[i + 1:]
            m, _ = run_case(pid, core, scratch, t)
            if m:
                case, msg, progress = t, m, True
    return case, msg


RULE = {
    "B01": "a distinct sequence of operations on a file object that ran to the end and was compared with the core library at every step",
    "B03": "a distinct sequence of operations, call or set of arguments repeated with fresh texts until nothing more was left behind",
    "B02": "a distinct argument given to the module's functions and constructors, its outcome compared with the core library",
}


def main():
    pid = sys.argv[1]
    core = Core()
    scratch = A["scratch"]
    if "replay" in A:
        with open(A["replay"]) as f:
            d = json.load(f)
        msg, _ = run_case(pid, core, scratch, d["case"])
        print(f"broken: {msg}" if msg else "held")
        return 1 if msg else 0
    shard, shards, seed = int(A["shard"]), int(A["shards"]), int(A["seed"])
    cases = {"B01": (40000, 400000), "B02": (400000, 3000000), "B03": (10000, 80000)}[pid][bool(A.get("thorough"))]
    end = time.time() + float(A["secs"])
    hb = open(A["out"] + ".hb", "wb")
    cur = A["out"] + ".case"
    distinct, samples, viol, done = set(), [], None, 0
    only = A.get("index")
    for i in range(shard, cases, shards) if only is None else [int(only)]:
        if time.time() > end:
            break
        hb.seek(0)
        hb.write(struct.pack("<Q", i))
        hb.flush()
        r = random.Random(f"{seed}:{pid}:{i}")
        case = {"B01": gen_ops, "B02": gen_case, "B03": gen_b03}[pid](r)
        msg, sig = run_case(pid, core, scratch, case)
        done += 1
        if msg:
            case, msg = shrink(pid, core, scratch, case, msg)
            viol = {"index": i, "seed": seed, "case": case, "msg": msg}
            break
        if sig:
            distinct.add(hashlib.sha256(sig.encode()).digest()[:8])
            if len(samples) < 3:
                samples.append(sig[:400])
    with open(A["out"] + ".distinct", "wb") as f:
        f.write(b"".join(distinct))
    with open(A["out"] + ".part", "w") as f:
        json.dump({"done": done, "planned": cases, "counters": COUNT, "nontrivial": len(distinct), "samples": samples, "known": {},
                   "violation": viol, "rule": RULE[pid]}, f)
    os.replace(A["out"] + ".part", A["out"])
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        code = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
