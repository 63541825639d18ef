//! Saving, determinism and concurrency: S01-S03.

use super::po::{any_po_bytes, short};
use super::Prop;
use crate::ensure;
use crate::eq::Same;
use crate::gen::{self, EntryOpts, KEY, STR};
use crate::mon::{call, lib, viol, Ctx, Outcome};
use crate::momodel as mm;
use crate::src::Src;
use rspolib::prelude::*;
use rspolib::{mofile, pofile, EntryCmpByOptions, MOFile, POFile, MAGIC, MAGIC_SWAPPED};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Barrier};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "S01", f: s01, rule: "a save was attempted and its outcome judged; distinct by method, target state and content", quick: 80_000, thorough: 560_000 },
        Prop { id: "S02", f: s02, rule: "catalogue with at least two metadata fields rendered from several insertion orders; distinct by content", quick: 300_000, thorough: 2_100_000 },
        Prop { id: "S03", f: s03, rule: "several threads ran library calls at the same time and their results were compared with sequential ones; distinct by workload", quick: 30_000, thorough: 420_000 },
    ]
}

/// Saving may report its outcome as a value or by panicking.
trait Done {
    fn done(self) -> bool;
}
impl Done for () {
    fn done(self) -> bool {
        true
    }
}
impl<T, E> Done for Result<T, E> {
    fn done(self) -> bool {
        self.is_ok()
    }
}

pub fn catalogue(s: &mut Src) -> POFile {
    let w = if s.chance(1, 2) { 78 } else { gen::wrapwidth(s) };
    let mut f = POFile::new(("", w).into());
    f.header = gen::header(s);
    f.metadata = gen::metadata(s);
    f.metadata_is_fuzzy = s.chance(1, 5);
    let n = gen::nentries(s);
    let mut seen = std::collections::HashSet::new();
    for _ in 0..n {
        let o = EntryOpts { key: KEY, val: STR, annotations: s.chance(1, 2), width: w };
        let mut e = gen::po_entry(s, &o);
        if e.obsolete {
            e.previous_msgctxt = None;
            e.previous_msgid = None;
            e.previous_msgid_plural = None;
        }
        if seen.insert((e.msgid.clone(), e.msgctxt.clone())) {
            f.entries.push(e);
        }
    }
    f
}

/// The same, seldom with very many entries.
fn any_size(s: &mut Src) -> POFile {
    let mut f = catalogue(s);
    for i in 0..gen::bulk(s, 1_000) {
        f.entries.push(rspolib::POEntry::from((format!("{i} of many").as_str(), "translated")));
    }
    f
}

// ---------------------------------------------------------------- S01

fn snapshot(dir: &str) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    fn go(p: &std::path::Path, m: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd.flatten() {
                let p = e.path();
                let n = p.to_string_lossy().into_owned();
                if p.is_dir() && !p.is_symlink() {
                    m.insert(n, b"<dir>".to_vec());
                    go(&p, m);
                } else {
                    m.insert(n, std::fs::read(&p).unwrap_or_default());
                }
            }
        }
    }
    go(std::path::Path::new(dir), &mut m);
    m
}

fn fsize_limit(n: Option<u64>) {
    unsafe {
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
        r.rlim_cur = n.unwrap_or(r.rlim_max);
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
}

const METHODS: [&str; 6] = ["po.save", "po.save_as_pofile", "po.save_as_mofile", "mo.save", "mo.save_as_mofile", "mo.save_as_pofile"];

fn save(f: &POFile, m: &MOFile, method: usize, path: &str) -> Result<bool, String> {
    lib(|| match METHODS[method] {
        "po.save" => f.save(path).done(),
        "po.save_as_pofile" => f.save_as_pofile(path).done(),
        "po.save_as_mofile" => f.save_as_mofile(path).done(),
        "mo.save" => m.save(path).done(),
        "mo.save_as_mofile" => m.save_as_mofile(path).done(),
        _ => m.save_as_pofile(path).done(),
    })
}

pub fn s01(s: &mut Src, c: &mut Ctx) -> Outcome {
    let f = any_size(s);
    let m = call("converting to MO", || MOFile::from(&f))?;
    let method = s.us(6);
    let want: Vec<u8> = match METHODS[method] {
        "po.save" | "po.save_as_pofile" => call("rendering", || f.to_string())?.into_bytes(),
        "mo.save_as_pofile" => call("rendering", || m.to_string())?.into_bytes(),
        "po.save_as_mofile" => call("as_bytes", || f.as_bytes().into_owned())?,
        _ => call("as_bytes", || m.as_bytes().into_owned())?,
    };
    let dir = format!("{}/s01", c.scratch);
    let _ = std::fs::remove_dir_all(&dir);
    if std::fs::create_dir_all(format!("{dir}/sub")).is_err() {
        return Ok(());
    }
    let name = s.pick(&["cat.po", "cat.mo", "out", "ñ 日本.po", "a.po.bak", "#x#", "-", "x~", "cat.po ", " cat.po", "Cat.PO", "cat.po\n", "cat", ".po", "a:b.po", "cat.po.gz"]).to_string();
    let target = format!("{dir}/{name}");
    // bystanders, including names a temporary file could take
    for n in ["other.po", "cat.po~", "cat.po.bak", "cat.po.tmp", "cat.mo.tmp", "out.tmp", ".cat.po.swp", "sub/deep.po"] {
        if n != name {
            let _ = std::fs::write(format!("{dir}/{n}"), format!("bystander {n}"));
        }
    }
    let old: Option<Vec<u8>> = match s.us(6) {
        0 => None,
        1 => Some(vec![]),
        2 => {
            // longer: the tail must go
            let mut v = want.clone();
            let k = s.range(1, 300);
            v.extend(std::iter::repeat(b'#').take(k));
            Some(v)
        }
        3 => Some(want[..s.us(want.len())].to_vec()),
        4 => Some(want.clone()),
        _ => Some(b"# something else entirely\nmsgid \"old\"\nmsgstr \"old\"\n".repeat(s.range(1, 40))),
    };
    if let Some(o) = &old {
        if std::fs::write(&target, o).is_err() {
            return Ok(());
        }
        if s.chance(1, 4) {
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(&target, std::fs::Permissions::from_mode(0o444));
        }
    }
    let mut path = target.clone();
    let mut through = None;
    let kind = s.weighted(&[8, 2, 2, 2, 1, 1, 6]);
    let mut must_fail = None;
    match kind {
        1 => {
            path = format!("{dir}/missing/{name}");
            must_fail = Some("target in a missing directory");
        }
        2 => {
            path = format!("{dir}/sub");
            must_fail = Some("target is a directory");
        }
        3 => {
            // through a link, so that nothing but the link can be replaced
            path = format!("{}/full", c.scratch);
            let _ = std::fs::remove_file(&path);
            if std::os::unix::fs::symlink("/dev/full", &path).is_err() {
                return Ok(());
            }
            must_fail = Some("device is full");
        }
        4 => {
            let l = format!("{dir}/link.po");
            let _ = std::fs::remove_file(&l);
            if std::os::unix::fs::symlink(&target, &l).is_ok() {
                through = Some(l.clone());
                path = l;
            }
        }
        5 => {
            path = format!("{dir}/a\0b.po");
            must_fail = Some("name contains NUL");
        }
        _ => path = c.spell(s, &format!("s01/{name}")),
    }
    let shown = path.replace(&c.scratch, "");
    c.nontrivial(&(method, kind, &old, &want), || format!("{} to {} ({} bytes, previously {:?})", METHODS[method], shown, want.len(), old.as_ref().map(|o| o.len())));
    if kind == 6 {
        return s01_faults(s, c, &f, &m, method, &target, &want, &old);
    }
    let before = snapshot(&dir);
    let r = save(&f, &m, method, &path);
    let after = snapshot(&dir);
    let ok = matches!(r, Ok(true));
    if let Some(why) = must_fail {
        // whoever replaces the link has saved after all
        let replaced = kind == 3 && std::fs::symlink_metadata(&path).is_ok_and(|m| m.is_file()) && std::fs::read(&path).is_ok_and(|b| b == want);
        ensure!(!ok || replaced, "{}: {why}, but saving returned normally", METHODS[method]);
        c.ev(&format!("failure_reported: {why}"));
    } else {
        match &r {
            Ok(true) => {}
            Ok(false) => return viol(format!("{} to a writable file reports failure", METHODS[method])),
            Err(p) => return viol(format!("{} to a writable file panicked: {p}", METHODS[method])),
        }
        let got = std::fs::read(&target).unwrap_or_default();
        ensure!(got == want, "{}: file holds {} bytes, rendering has {}; first difference at {:?}; previous content {:?} bytes", METHODS[method], got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b), old.as_ref().map(|o| o.len()));
        c.ev("files_compared");
        c.ev_if(old.as_ref().is_some_and(|o| o.len() > want.len()), "longer_file_replaced");
        if METHODS[method].ends_with("pofile") || METHODS[method] == "po.save" {
            let a = call("reading the saved file", || pofile(path.as_str()))?;
            let t = String::from_utf8_lossy(&want).into_owned();
            let b = call("reading the rendering", || pofile(t.as_str()))?;
            match (a, b) {
                (Ok(a), Ok(b)) => ensure!(a.entries.same(&b.entries) && a.metadata == b.metadata && a.header == b.header, "saved file reads differently from the rendering {}", short(&t)),
                (Err(_), Err(_)) => {}
                (a, b) => return viol(format!("saved file reads as {a:?}, rendering as {b:?}")),
            }
        } else {
            let a = call("reading the saved file", || mofile(path.as_str()))?;
            let b = call("reading the image", || mofile(want.clone()))?;
            match (a, b) {
                (Ok(a), Ok(b)) => ensure!(a.entries.same(&b.entries) && a.metadata == b.metadata, "saved MO file reads differently from its image"),
                (Err(_), Err(_)) => {}
                (a, b) => return viol(format!("saved file reads as {a:?}, image as {b:?}")),
            }
        }
    }
    for (n, v) in &before {
        if *n == target || Some(n) == through.as_ref() {
            continue;
        }
        ensure!(after.get(n) == Some(v), "{} changed another file: {}", METHODS[method], n.replace(&c.scratch, ""));
    }
    for n in after.keys() {
        let expected = before.contains_key(n) || *n == target || *n == path;
        ensure!(expected, "{} left another file behind: {}", METHODS[method], n.replace(&c.scratch, ""));
    }
    c.evn("bystanders_compared", before.len() as u64);
    Ok(())
}

/// Let the file system refuse data beyond every (or many) size.
fn s01_faults(s: &mut Src, c: &mut Ctx, f: &POFile, m: &MOFile, method: usize, target: &str, want: &[u8], old: &Option<Vec<u8>>) -> Outcome {
    let n = want.len();
    let points: Vec<usize> = if n <= 60 {
        (0..=n).collect()
    } else {
        let mut v = vec![0, 1, n - 1, n, n / 2];
        for _ in 0..3 {
            v.push(s.us(n));
        }
        v
    };
    for k in points {
        match old {
            Some(o) => {
                let _ = std::fs::write(target, o);
            }
            None => {
                let _ = std::fs::remove_file(target);
            }
        }
        fsize_limit(Some(k as u64));
        let r = save(f, m, method, target);
        fsize_limit(None);
        let got = std::fs::read(target).unwrap_or_default();
        if matches!(r, Ok(true)) {
            ensure!(got == want, "{}: only {k} of {n} bytes could be written, but saving returned normally (file holds {} bytes)", METHODS[method], got.len());
            ensure!(k >= n, "{}: limit of {k} bytes had no effect", METHODS[method]);
            c.ev("complete_writes_under_limit");
        } else {
            ensure!(k < n, "{}: {n} bytes fit into {k} but saving failed: {r:?}", METHODS[method]);
            c.ev("write_faults_reported");
        }
        c.ev("write_fault_points");
    }
    Ok(())
}

// ---------------------------------------------------------------- S02

const STD: [&str; 11] = [
    "Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language",
    "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms",
];

/// Natural order where the property fixes it: None when it does not.
fn natural(a: &str, b: &str) -> Option<std::cmp::Ordering> {
    let simple = |x: &str| x.is_ascii() && !x.bytes().any(|b| b.is_ascii_whitespace() || b.is_ascii_control());
    if !simple(a) || !simple(b) {
        return None;
    }
    fn toks(x: &str) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for c in x.chars() {
            match v.last_mut() {
                Some(l) if c.is_ascii_digit() && l.as_bytes()[0].is_ascii_digit() => l.push(c),
                _ => v.push(c.to_string()),
            }
        }
        v
    }
    let (x, y) = (toks(a), toks(b));
    let zero = |t: &str| t.len() > 1 && t.starts_with('0');
    for (p, q) in x.iter().zip(&y) {
        if p == q {
            if zero(p) {
                return None;
            }
            continue;
        }
        let dp = p.as_bytes()[0].is_ascii_digit();
        let dq = q.as_bytes()[0].is_ascii_digit();
        if dp && dq {
            if zero(p) || zero(q) {
                return None;
            }
            return Some(p.len().cmp(&q.len()).then(p.cmp(q)));
        }
        return Some(p.as_bytes()[0].cmp(&q.as_bytes()[0]));
    }
    if x.len() == y.len() {
        None
    } else {
        Some(x.len().cmp(&y.len()))
    }
}

fn keys_of(t: &str) -> Vec<String> {
    t.split('\n').filter(|l| !l.is_empty()).map(|l| l.split_once(": ").map(|x| x.0).unwrap_or(l).to_string()).collect()
}

fn order_ok(keys: &[String], meta: &HashMap<String, String>, what: &str) -> Outcome {
    let mut k: Vec<String> = keys.to_vec();
    k.sort();
    let mut m: Vec<String> = meta.keys().cloned().collect();
    m.sort();
    ensure!(k == m, "{what}: metadata fields written {keys:?}, present {m:?}");
    let pos = |x: &String| STD.iter().position(|s| s == x);
    for i in 0..keys.len() {
        for j in i + 1..keys.len() {
            let (a, b) = (&keys[i], &keys[j]);
            match (pos(a), pos(b)) {
                (Some(x), Some(y)) => ensure!(x < y, "{what}: {a} written before {b}"),
                (None, Some(_)) => return viol(format!("{what}: extra field {a} written before standard field {b}")),
                (Some(_), None) => {}
                (None, None) => {
                    if let Some(o) = natural(a, b) {
                        ensure!(o == std::cmp::Ordering::Less, "{what}: {a:?} written before {b:?}");
                    }
                }
            }
        }
    }
    Ok(())
}

fn natural_meta(s: &mut Src) -> HashMap<String, String> {
    let mut m = gen::metadata(s);
    let n = s.us(6);
    let stem = *s.pick(&["X-Path-", "X-", "P", "A-B-", "x1-"]);
    for _ in 0..n {
        let mut k = stem.to_string();
        match s.us(5) {
            0 => k.push_str(&s.us(12).to_string()),
            1 => k.push_str(&s.us(1200).to_string()),
            2 => k.push_str(&format!("0{}", s.us(12))),
            3 => k.push_str(&format!("{}-{}", s.us(12), s.us(12))),
            _ => k.push_str(s.pick(&["a", "b", "z", "10a", "9b", "99999999999999999999999", "100000000000000000000000"])),
        }
        m.insert(k, gen::meta_value(s));
    }
    m
}

fn own_unescape_line(l: &str) -> String {
    let mut out = String::new();
    let mut it = l.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some('r') => out.push('\r'),
                Some('b') => out.push('\u{8}'),
                Some('v') => out.push('\u{11}'),
                Some('f') => out.push('\u{12}'),
                Some(x) => out.push(x),
                None => {}
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn s02_file(s: &mut Src) -> (POFile, Vec<(String, String)>) {
    let mut f = catalogue(s);
    f.entries.truncate(4);
    f.metadata = natural_meta(s);
    gen::loose(s, &mut f);
    let mut kv: Vec<(String, String)> = f.metadata.clone().into_iter().collect();
    kv.sort();
    (f, kv)
}

fn renders(f: &POFile) -> (String, String, Vec<u8>, Vec<u8>) {
    let m = MOFile::from(f);
    (f.to_string(), m.to_string(), m.as_bytes_with(MAGIC, 0).into_owned(), m.as_bytes_with(MAGIC_SWAPPED, 1).into_owned())
}

/// Child side of the cross-process comparison.
pub fn s02_child(choices: Vec<u64>) -> u64 {
    let mut s = Src::from_choices(choices);
    let (f, _) = s02_file(&mut s);
    let r = renders(&f);
    fingerprint(&f, &r).unwrap_or(0)
}

fn digest(r: &(String, String, Vec<u8>, Vec<u8>)) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in r.0.bytes().chain(r.1.bytes()).chain(r.2.iter().copied()).chain(r.3.iter().copied()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// The same messages with default options, as built and as read again.
fn plainly(f: &POFile, r: &(String, String, Vec<u8>, Vec<u8>)) -> String {
    let plain = POFile::from(f.entries.iter().collect::<Vec<_>>()).to_string();
    let again = pofile(r.0.as_str()).map(|g| g.to_string()).unwrap_or_default();
    let mo = mofile(r.2.clone()).map(|g| g.to_string()).unwrap_or_default();
    format!("{plain}\0{again}\0{mo}")
}

fn fingerprint(f: &POFile, r: &(String, String, Vec<u8>, Vec<u8>)) -> Result<u64, crate::mon::Viol> {
    let p = call("rendering with default options", || plainly(f, r))?;
    Ok(p.bytes().fold(digest(r), |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))
}

pub fn s02(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (f, kv) = s02_file(s);
    let upto = s.rec.clone();
    let base = call("rendering", || renders(&f))?;
    for i in 0..4 {
        let mut g = f.clone();
        let mut order = kv.clone();
        match i {
            0 => order.reverse(),
            1 => {}
            _ => s.shuffle(&mut order),
        }
        g.metadata = if s.chance(1, 2) { HashMap::new() } else { HashMap::with_capacity(s.range(1, 300)) };
        if s.chance(1, 3) {
            // deletions leave the table in another shape
            for k in 0..20 {
                g.metadata.insert(format!("tmp{k}"), "x".into());
            }
            for k in 0..20 {
                g.metadata.remove(&format!("tmp{k}"));
            }
        }
        for (k, v) in order {
            g.metadata.insert(k, v);
        }
        let r = call("rendering", || renders(&g))?;
        ensure!(g.entries.same(&f.entries) && g.metadata == f.metadata && g.header == f.header, "copy differs");
        for (n, a, b) in [("PO text", &base.0, &r.0), ("PO text of the MO catalogue", &base.1, &r.1)] {
            ensure!(a == b, "{n} of equal catalogues differs:\n{}\n--- versus ---\n{}", short(a), short(b));
        }
        ensure!(base.2 == r.2 && base.3 == r.3, "MO images of equal catalogues differ; metadata {kv:?}");
        c.ev("copies_rendered");
    }
    // order of the fields, in the text
    for (n, t) in [("PO text", &base.0), ("PO text of the MO catalogue", &base.1)] {
        let at = match t.find("\nmsgstr \"\"\n") {
            Some(a) => a + 11,
            None => return viol(format!("{n} has no metadata entry: {}", short(t))),
        };
        let block: Vec<&str> = t[at..].split('\n').take_while(|l| l.starts_with('"')).collect();
        let joined: String = block.iter().map(|l| own_unescape_line(l[1..].strip_suffix('"').unwrap_or(&l[1..]))).collect();
        order_ok(&keys_of(&joined), &f.metadata, n)?;
    }
    for b in [&base.2, &base.3] {
        let im = match mm::parse_img(b) {
            Ok(i) => i,
            Err(e) => return viol(e),
        };
        let t = match mm::slice(b, im.vals[0]) {
            Ok(x) => String::from_utf8_lossy(x).into_owned(),
            Err(e) => return viol(e),
        };
        order_ok(&keys_of(&t), &f.metadata, "MO image")?;
    }
    c.evn("metadata_fields", kv.len() as u64);
    if kv.len() >= 2 {
        c.nontrivial(&base.0, || short(&base.0));
    }
    // another process, another hash seed
    if s.chance(1, 150) {
        let txt = upto.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        if let Ok(out) = child(&["s02-child"], &txt, &surroundings(s)) {
            let want = fingerprint(&f, &base)?.to_string();
            ensure!(out.trim() == want, "another process renders the same catalogue differently; metadata {kv:?}");
            c.ev("processes_compared");
        }
    }
    Ok(())
}

/// Environment variables that a program may look at, the ones named in the
/// sources of the library in particular.
fn surroundings(s: &mut Src) -> Vec<(String, String)> {
    let mut v = vec![];
    let known = ["COLUMNS", "LINES", "LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "TZ", "TERM", "USER", "HOME", "TMPDIR", "EDITOR", "DEBUG", "NO_COLOR", "SOURCE_DATE_EPOCH"];
    let named = gen::dict().strs.iter().filter(|x| x.len() > 1 && x.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_') && !x.starts_with("RUST") && !x.starts_with("LD_"));
    for n in known.iter().map(|x| x.to_string()).chain(named.cloned()) {
        if s.chance(1, 2) {
            v.push((n, s.pick(&["7", "1", "40", "C", "tr_TR.UTF-8", "", "/nonexistent"]).to_string()));
        }
    }
    v
}

fn child(args: &[&str], input: &str, env: &[(String, String)]) -> Result<String, String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut p = Command::new(exe).args(args).envs(env.iter().map(|(k, v)| (k, v))).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().map_err(|e| e.to_string())?;
    p.stdin.take().unwrap().write_all(input.as_bytes()).map_err(|e| e.to_string())?;
    let o = p.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("child: {}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

// ---------------------------------------------------------------- S03

/// One unit of work whose result is a plain string.
#[derive(Clone, Debug)]
enum Job {
    ReadPo(Vec<u8>),
    ReadPoText(String),
    ReadMo(Vec<u8>),
    ReadPoPath(String),
    Render(usize),
    RenderMo(usize),
    Image(bool),
    Convert,
    Find(String, &'static str),
    Status,
    Compare(usize, usize),
    Escape(String),
    Unescape(String),
    /// documented to panic on malformed text
    Panic(String),
    SaveNowhere,
    /// to a file of this job alone
    SavePo(String),
    SaveMo(String, bool),
    Merge(usize),
    /// change a copy in several steps
    Edit(String, usize),
}

fn run_job(j: &Job, f: &POFile, m: &MOFile) -> String {
    let r = lib(|| match j {
        Job::ReadPo(b) => format!("{:?}", pofile(b.clone()).map(canon)),
        Job::ReadPoText(t) => format!("{:?}", pofile(t.as_str()).map(canon)),
        Job::ReadPoPath(t) => format!("{:?}", pofile(t.as_str()).map(canon)),
        Job::ReadMo(b) => format!("{:?}", mofile(b.clone()).map(|f| (f.entries, sorted(f.metadata)))),
        Job::Render(w) => f.entries.iter().map(|e| e.to_string_with_wrapwidth(*w)).collect::<String>() + &f.to_string(),
        Job::RenderMo(w) => m.entries.iter().map(|e| e.to_string_with_wrapwidth(*w)).collect::<String>() + &m.to_string(),
        Job::Image(be) => format!("{:?}", if *be { m.as_bytes_be() } else { f.as_bytes_le() }),
        Job::Convert => {
            let x = MOFile::from(f);
            format!("{:?} {:?}", x.entries, sorted(x.metadata))
        }
        Job::Find(v, by) => format!("{:?}{:?}{:?}", f.find(v, by, None, true), f.find_by_msgid(v), m.find(v, by, Some(""))),
        Job::Status => format!("{:?}{:?}{:?}", f.translated_entries(), f.untranslated_entries(), f.percent_translated()),
        Job::Compare(i, j) => {
            let n = f.entries.len().max(1);
            match (f.entries.get(i % n), f.entries.get(j % n)) {
                (Some(a), Some(b)) => format!("{:?}", a.cmp_by(b, &EntryCmpByOptions::new())),
                _ => String::new(),
            }
        }
        Job::Escape(t) => rspolib::escaping::escape(t).into_owned(),
        Job::Unescape(t) => format!("{:?}", rspolib::escaping::unescape(t)),
        Job::Panic(t) => POFile::from(t.as_str()).to_string(),
        Job::SaveNowhere => {
            f.save("/nonexistent-directory/x/y.po");
            String::new()
        }
        Job::SavePo(p) => {
            f.save(p);
            format!("{:?}", std::fs::read(p))
        }
        Job::SaveMo(p, from_po) => {
            if *from_po {
                f.save_as_mofile(p);
            } else {
                m.save(p);
            }
            format!("{:?}", std::fs::read(p))
        }
        Job::Merge(k) => {
            let mut a = f.clone();
            let mut b = f.clone();
            let n = a.entries.len();
            a.entries.truncate(n - k % (n + 1));
            b.entries.drain(..(k / 2) % (n + 1));
            a.merge(b);
            canon(a)
        }
        Job::Edit(v, w) => {
            let mut a = f.clone();
            a.remove_by_msgid(v);
            a.options.wrapwidth = *w;
            let t = a.to_string();
            a.metadata.insert("X-Edit".into(), v.replace('\n', " "));
            t + &a.to_string()
        }
    });
    match r {
        Ok(t) => t,
        Err(p) => format!("panic: {p}"),
    }
}

fn sorted(m: HashMap<String, String>) -> BTreeMap<String, String> {
    m.into_iter().collect()
}

fn canon(f: POFile) -> String {
    format!("{:?} {:?} {:?} {:?}", f.header, f.metadata_is_fuzzy, sorted(f.metadata), f.entries)
}

struct Workload {
    jobs: Vec<Vec<Job>>,
    f: POFile,
    m: MOFile,
}

fn workload(s: &mut Src, dir: &str, path: &str) -> Workload {
    let mut f = catalogue(s);
    f.entries.truncate(10);
    let mut m = MOFile::new("".into());
    m.entries = gen::mo_entries(s);
    m.entries.truncate(10);
    m.metadata = gen::metadata(s);
    let n = s.range(2, 8);
    let mut jobs = vec![];
    let same = s.chance(1, 2);
    let shared_bytes = any_po_bytes(s, true);
    for i in 0..n {
        let k = s.range(1, 5);
        let mut v = vec![];
        for q in 0..k {
            v.push(match s.us(19) {
                0 => Job::ReadPo(if same { shared_bytes.clone() } else { any_po_bytes(s, true) }),
                1 | 2 => Job::ReadPoText(match s.us(3) {
                    0 => "msgid \"a\"\nmsgstr \"b\"\n".into(),
                    1 => "#, fuzzy\nmsgid \"\"\nmsgstr \"X: 1\\n\"\n\n#: a:1\nmsgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"\\t\"\nmsgstr[1] \"é\"\n".into(),
                    _ => String::from_utf8_lossy(&shared_bytes).into_owned(),
                }),
                3 => Job::ReadMo({
                    let e = gen::mo_entries(s);
                    let mut it: Vec<_> = e.iter().map(|e| (mm::key_bytes(e), mm::val_bytes(e))).collect();
                    it.sort();
                    let be = s.chance(1, 2);
                    mm::write_img(s, &it, be, 0)
                }),
                4 => Job::Render(gen::wrapwidth(s)),
                5 => Job::RenderMo(gen::wrapwidth(s)),
                6 => Job::Image(s.chance(1, 2)),
                7 => Job::Convert,
                8 => Job::Find(s.pick(&["a", "m", ""]).to_string(), *s.pick(&["msgid", "msgctxt", "msgstr"])),
                9 => Job::Status,
                10 => Job::Compare(s.us(10), s.us(10)),
                11 => Job::Escape(gen::text(s, gen::FREE)),
                12 => Job::Unescape(s.pick(&["a\\nb", "\\q", "\\", "\\\\n", "é\\\""]).to_string()),
                14 => Job::SavePo(format!("{dir}/s03-{i}-{q}.po")),
                15 => Job::SaveMo(format!("{dir}/s03-{i}-{q}.mo"), s.chance(1, 2)),
                16 => Job::Merge(s.us(30)),
                17 => Job::Edit(s.pick(&["a", "m", ""]).to_string(), gen::wrapwidth(s)),
                13 => Job::Panic(s.pick(&["msgid \"unterminated\nx", "what is this", "msgid \"a\"\nmsgstr \"b\"\n"]).to_string()),
                _ => {
                    if s.chance(1, 2) {
                        Job::SaveNowhere
                    } else {
                        Job::ReadPoPath(path.to_string())
                    }
                }
            });
        }
        jobs.push(v);
    }
    Workload { jobs, f, m }
}

/// Run all threads from one barrier; the library has not been used by this
/// code before when `first` holds.
fn race(w: Workload, rounds: usize) -> (Vec<Vec<String>>, Workload) {
    let w = Arc::new(w);
    let n = w.jobs.len();
    let bar = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let (w, bar) = (w.clone(), bar.clone());
            std::thread::spawn(move || {
                let mut out = vec![];
                bar.wait();
                for _ in 0..rounds {
                    out = w.jobs[i].iter().map(|j| run_job(j, &w.f, &w.m)).collect();
                }
                out
            })
        })
        .collect();
    let r = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["thread died".into()])).collect();
    let w = Arc::try_unwrap(w).unwrap_or_else(|_| panic!("threads still hold the workload"));
    (r, w)
}

fn compare(r: &[Vec<String>], w: &Workload) -> Result<usize, String> {
    let mut n = 0;
    for (i, v) in w.jobs.iter().enumerate() {
        for (k, j) in v.iter().enumerate() {
            let alone = run_job(j, &w.f, &w.m);
            if r[i].get(k) != Some(&alone) {
                return Err(format!("thread {i}, {j:?}: concurrent result {:?}, sequential result {:?}", r[i].get(k).map(|x| short(x)), short(&alone)));
            }
            n += 1;
        }
    }
    Ok(n)
}

/// Jobs that are meant to panic.
fn panics(j: &Job) -> bool {
    matches!(j, Job::Panic(_) | Job::SaveNowhere)
}

/// Results of the other jobs in a process where nothing has failed before.
pub fn s03_alone(dir: &str, choices: Vec<u64>) -> i32 {
    let mut s = Src::from_choices(choices);
    let w = workload(&mut s, dir, &format!("{dir}/s03.po"));
    let r: Vec<Vec<String>> = w
        .jobs
        .iter()
        .map(|v| v.iter().map(|j| if panics(j) { String::new() } else { run_job(j, &w.f, &w.m) }).collect())
        .collect();
    println!("{}", serde_json::json!(r));
    0
}

/// A job that should not panic did: would it have, had nothing else run?
fn spoiled(r: &[Vec<String>], w: &Workload, dir: &str, choices: &[u64]) -> Result<(), String> {
    let odd = |i: usize, k: usize| r[i].get(k).is_some_and(|x| x.starts_with("panic: ")) && !panics(&w.jobs[i][k]);
    if !(0..w.jobs.len()).any(|i| (0..w.jobs[i].len()).any(|k| odd(i, k))) {
        return Ok(());
    }
    let txt = choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let Ok(out) = child(&["s03-alone", dir], &txt, &[]) else { return Ok(()) };
    let Ok(alone) = serde_json::from_str::<Vec<Vec<String>>>(&out) else { return Ok(()) };
    for i in 0..w.jobs.len() {
        for k in 0..w.jobs[i].len() {
            if odd(i, k) && alone.get(i).and_then(|v| v.get(k)).is_some_and(|x| !x.starts_with("panic: ")) {
                return Err(format!("thread {i}, {:?}: {:?}, though not in a process where nothing failed before", w.jobs[i][k], short(&r[i][k])));
            }
        }
    }
    Ok(())
}

pub fn s03_child(dir: &str, choices: Vec<u64>) -> i32 {
    let mut s = Src::from_choices(choices);
    let w = workload(&mut s, dir, "/nonexistent.po");
    let (r, w) = race(w, 1);
    match compare(&r, &w) {
        Ok(n) => {
            println!("ok {n}");
            0
        }
        Err(e) => {
            println!("differs {e}");
            0
        }
    }
}

pub fn s03(s: &mut Src, c: &mut Ctx) -> Outcome {
    let first = s.chance(1, 40);
    if first {
        // a fresh process, so that the very first use is concurrent
        let mut sub = s.clone_forward();
        let w = workload(&mut sub, &c.scratch, "/nonexistent.po");
        let rec = sub.rec.clone();
        s.absorb(&rec);
        let txt = rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        c.nontrivial(&txt, || format!("first use by {} threads", w.jobs.len()));
        match child(&["s03-child", &c.scratch], &txt, &[]) {
            Ok(o) => {
                if let Some(e) = o.strip_prefix("differs ") {
                    return viol(format!("on first use: {e}"));
                }
                c.ev("first_use_races");
                Ok(())
            }
            // killed from outside or not started: no verdict
            Err(e) if !e.starts_with("child: ") || e.contains("signal: 9") => {
                c.ev("processes_not_judged");
                Ok(())
            }
            Err(e) => viol(format!("process with concurrent first use died: {e}")),
        }
    } else {
        let path = format!("{}/s03.po", c.scratch);
        if std::fs::write(&path, "msgid \"a\"\nmsgstr \"b\"\n\n#~ msgid \"o\"\n#~ msgstr \"p\"\n").is_err() {
            return Ok(());
        }
        let from = s.rec.len();
        let w = workload(s, &c.scratch, &path);
        let choices = s.rec[from..].to_vec();
        let key = format!("{:?}", w.jobs);
        let nt = w.jobs.len();
        let (r, w) = race(w, if c.thorough { 4 } else { 2 });
        c.nontrivial(&key, || format!("{nt} threads: {key}"));
        let panics = r.iter().flatten().filter(|x| x.starts_with("panic: ")).count();
        if let Err(e) = spoiled(&r, &w, &c.scratch, &choices) {
            return viol(e);
        }
        match compare(&r, &w) {
            Ok(n) => {
                c.evn("results_compared", n as u64);
                c.evn("panicking_calls", panics as u64);
                c.evn("threads", nt as u64);
                Ok(())
            }
            Err(e) => viol(e),
        }
    }
}
