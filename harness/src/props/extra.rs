//! Unescaped entries, equality, cost and leftovers: P12, Q06, R01, S04.

use super::mo::damaged;
use super::more::any_entry;
use super::po::{any_po_bytes, short};
use super::sys::catalogue;
use super::Prop;
use crate::ensure;
use crate::eq::Same;
use crate::gen::{self, FREE};
use crate::mon::{call, cpu_secs, lib, live, requested, Ctx, Outcome, Viol};
use crate::src::Src;
use rspolib::errors::EscapingError;
use rspolib::escaping::{escape, unescape};
use rspolib::prelude::*;
use rspolib::{mofile, pofile, FileOptions, MOEntry, MOFile, POEntry, POFile};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P12", f: p12, rule: "entry with an escape sequence in one of its texts was unescaped; distinct by entry", quick: 3_000_000, thorough: 20_000_000 },
        Prop { id: "Q06", f: q06, rule: "two values differing in one part were compared; distinct by values", quick: 800_000, thorough: 6_000_000 },
        Prop { id: "S04", f: s04, rule: "a sequence of operations was repeated and the process compared before and after; distinct by operations and input", quick: 40_000, thorough: 600_000 },
        Prop { id: "R01", f: r01, rule: "an operation was measured on an input and on one eight times larger; distinct by shape, operation and size", quick: 1_600, thorough: 30_000 },
    ]
}

// ---------------------------------------------------------------- R01

const FACTOR: usize = 8;
/// Proportional growth gives 8, growth with the square 64.
const CPU_FACTOR: f64 = 40.0;
/// Cache effects reach this; then larger inputs are looked at.
const SUSPECT: f64 = 14.0;
const MEM_FACTOR: f64 = 24.0;

const FIELDS: [&str; 8] = ["msgctxt", "msgid", "msgid_plural", "msgstr", "msgstr[0]", "#| msgctxt", "#| msgid", "#| msgid_plural"];

#[derive(Clone, Debug, Hash)]
struct Shape {
    kind: usize,
    field: usize,
    piece: String,
    obsolete: bool,
    state: usize,
}

const KINDS: [&str; 14] = [
    "entries", "continuation lines", "one long string", "translator comment lines", "extracted comment lines", "references on a line", "reference lines", "flags on a line", "flag lines",
    "metadata fields", "metadata continuation", "header lines", "blank lines", "long comment line",
];

fn put(t: &mut String, f: usize, value: &str) {
    let order: &[usize] = if f >= 5 { &[5, 6, 7, 1, 3] } else if f == 2 || f == 4 { &[0, 1, 2, 4] } else { &[0, 1, 3] };
    for k in order {
        t.push_str(FIELDS[*k]);
        t.push(' ');
        if *k == f {
            t.push_str(value);
        } else {
            t.push_str("\"x\"");
        }
        t.push('\n');
    }
}

fn shape(s: &mut Src) -> Shape {
    let piece = s
        .pick(&[
            "word ", "x", "\\n", "\\\"", "\\\\", "é", "中", "a-b", "tab\\t", "longer words without much meaning ", " ", ".", "(a) ", "e\u{301}", "%d ", "👨\u{200d}👩 ", "http://example.org/a/b?c=d ", "\u{a0}",
        ])
        .to_string();
    let kind = if s.chance(1, 4) { 0 } else { s.us(KINDS.len()) };
    Shape { kind, field: s.us(8), piece, obsolete: s.chance(1, 5), state: s.us(6) }
}

/// PO text of the shape with `n` parts.
fn po_text(h: &Shape, n: usize) -> String {
    let mut t = String::new();
    let p = &h.piece;
    match KINDS[h.kind] {
        "entries" => {
            for i in 0..n / 8 + 1 {
                if h.obsolete {
                    t.push_str(&format!("#~ msgid \"{p}{i}\"\n#~ msgstr \"{p}\"\n\n"));
                } else {
                    t.push_str(&match h.state {
                        0 => format!("#, fuzzy\nmsgid \"{p}{i}\"\nmsgstr \"{p}\"\n\n"),
                        1 => format!("msgid \"{p}{i}\"\nmsgstr \"\"\n\n"),
                        2 => format!("msgctxt \"{i}\"\nmsgid \"{p}\"\nmsgid_plural \"{p}s\"\nmsgstr[0] \"{p}\"\nmsgstr[1] \"{p}{i}\"\n\n"),
                        _ => format!("#: f.c:{i}\nmsgid \"{p}{i}\"\nmsgstr \"{p}\"\n\n"),
                    });
                }
            }
        }
        "continuation lines" => {
            let mut v = String::from("\"\"");
            for _ in 0..n {
                v.push_str(if h.field >= 5 { "\n#| \"" } else { "\n\"" });
                v.push_str(p);
                v.push('"');
            }
            put(&mut t, h.field, &v);
        }
        "one long string" => {
            let v = format!("\"{}\"", p.repeat(n));
            put(&mut t, h.field, &v);
        }
        "translator comment lines" | "extracted comment lines" | "reference lines" | "flag lines" | "header lines" => {
            let mark = match h.kind {
                3 => "#",
                4 => "#.",
                6 => "#:",
                8 => "#,",
                _ => "#",
            };
            if KINDS[h.kind] == "header lines" {
                for i in 0..n {
                    t.push_str(&format!("# {p}{i}\n"));
                }
                t.push_str("msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\n");
            } else {
                t.push_str("msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\n");
                for i in 0..n {
                    match mark {
                        "#:" => t.push_str(&format!("#: f{i}.c:{i}\n")),
                        "#," => t.push_str(&format!("#, flag-{i}\n")),
                        _ => t.push_str(&format!("{mark} {p}{i}\n")),
                    }
                }
            }
            put(&mut t, 3, "\"y\"");
        }
        "references on a line" => {
            t.push_str("#:");
            for i in 0..n {
                t.push_str(&format!(" f{i}.c:{i}"));
            }
            t.push('\n');
            put(&mut t, 3, "\"y\"");
        }
        "flags on a line" => {
            t.push_str("#, fuzzy");
            for i in 0..n {
                t.push_str(&format!(", flag-{i}"));
            }
            t.push('\n');
            put(&mut t, 3, "\"y\"");
        }
        "metadata fields" => {
            t.push_str("msgid \"\"\nmsgstr \"\"\n");
            for i in 0..n {
                t.push_str(&format!("\"X-Field-{i}: {p}\\n\"\n"));
            }
        }
        "metadata continuation" => {
            t.push_str("msgid \"\"\nmsgstr \"\"\n\"X-Field: \"\n");
            for _ in 0..n {
                t.push_str("\"word\"\n");
            }
            t.push_str("\"\\n\"\n");
        }
        "blank lines" => {
            t.push_str("msgid \"a\"\nmsgstr \"b\"\n");
            t.push_str(&"\n".repeat(n));
            t.push_str("msgid \"c\"\nmsgstr \"d\"\n");
        }
        _ => {
            t.push_str("msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\n");
            t.push_str(if h.obsolete { "#. " } else { "# " });
            t.push_str(&p.repeat(n));
            t.push('\n');
            put(&mut t, 3, "\"y\"");
        }
    }
    t
}

const OPS: [&str; 18] = [
    "reading text", "reading bytes", "rendering", "rendering narrowly", "converting to MO", "writing MO", "reading MO", "rendering MO", "listing by status", "searching", "presenting metadata", "removing",
    "converting to PO", "reading a file", "saving", "unescaping entries", "escaping", "unescaping",
];

struct Input {
    text: String,
    file: POFile,
    mo: MOFile,
    image: Vec<u8>,
    plain: String,
    path: String,
}

fn input(h: &Shape, n: usize, op: &str, c: &Ctx) -> Result<Option<Input>, Viol> {
    let text = po_text(h, n);
    let mut i = Input {
        text,
        file: POFile::new(FileOptions::default()),
        mo: MOFile::new(FileOptions::default()),
        image: vec![],
        plain: String::new(),
        path: format!("{}/r01", c.scratch),
    };
    if op == "reading a file" {
        if std::fs::write(&i.path, &i.text).is_err() {
            return Ok(None);
        }
    } else if op == "unescaping" {
        i.plain = escape(&i.text).into_owned();
    } else if !["reading text", "reading bytes", "escaping"].contains(&op) {
        i.file = match call("reading", || pofile(i.text.as_str()))? {
            Ok(f) => f,
            Err(_) => return Ok(None),
        };
        i.file.options = FileOptions::default();
        if op == "rendering narrowly" {
            i.file.options.wrapwidth = 20;
        }
        if op == "unescaping entries" {
            for e in &mut i.file.entries {
                e.msgid = escape(&e.msgid).into_owned();
                e.msgstr = e.msgstr.as_ref().map(|t| escape(t).into_owned());
                e.msgctxt = e.msgctxt.as_ref().map(|t| escape(t).into_owned());
            }
        }
        if op.contains("MO") || op == "converting to PO" {
            i.mo = call("converting", || MOFile::from(&i.file))?;
        }
        if op == "reading MO" {
            i.image = call("as_bytes", || i.mo.as_bytes().into_owned())?;
        }
    }
    Ok(Some(i))
}

fn perform(op: &str, i: &Input) -> usize {
    match op {
        "reading text" => pofile(i.text.as_str()).map(|f| f.entries.len()).unwrap_or(0),
        "reading bytes" => pofile(i.text.as_bytes().to_vec()).map(|f| f.entries.len()).unwrap_or(0),
        "reading a file" => pofile(i.path.as_str()).map(|f| f.entries.len()).unwrap_or(0),
        "rendering" | "rendering narrowly" => i.file.to_string().len(),
        "converting to MO" => MOFile::from(&i.file).entries.len(),
        "converting to PO" => i.mo.entries.iter().map(|e| POEntry::from(e).msgid.len()).sum(),
        "writing MO" => i.mo.as_bytes_be().len() + i.mo.as_bytes_le().len(),
        "reading MO" => mofile(i.image.clone()).map(|f| f.entries.len()).unwrap_or(0),
        "rendering MO" => i.mo.to_string().len(),
        "listing by status" => i.file.translated_entries().len() + i.file.untranslated_entries().len() + i.file.fuzzy_entries().len() + i.file.obsolete_entries().len() + i.file.percent_translated() as usize,
        "searching" => i.file.find("nothing", "msgid", None, true).len() + i.file.find("", "tcomment", None, true).len() + i.file.find("", "msgctxt", None, true).len() + i.file.find("word ", "msgstr", Some(""), false).len() + i.file.find_by_msgid("nothing").is_some() as usize,
        "presenting metadata" => i.file.metadata_as_entry().msgstr.map_or(0, |t| t.len()),
        "removing" => {
            let mut f = i.file.clone();
            f.remove_by_msgid("x");
            f.entries.len()
        }
        "saving" => {
            let _ = i.file.save(&i.path);
            0
        }
        "unescaping entries" => i.file.entries.iter().filter(|e| e.unescaped().is_ok()).count(),
        "escaping" => escape(&i.text).len(),
        _ => unescape(&i.plain).map(|t| t.len()).unwrap_or(0),
    }
}

/// Least processor time and memory requested over some repetitions.
fn measure(op: &str, i: &Input, times: usize) -> Result<(f64, usize), Viol> {
    let mut best = f64::MAX;
    let mut mem = usize::MAX;
    for _ in 0..times {
        let m = requested();
        let t = cpu_secs();
        let n = call(op, || perform(op, i))?;
        best = best.min(cpu_secs() - t);
        mem = mem.min(requested() - m);
        std::hint::black_box(n);
    }
    Ok((best, mem))
}

pub fn r01(s: &mut Src, c: &mut Ctx) -> Outcome {
    let h = shape(s);
    let op = *s.pick(&OPS);
    let (goal, most) = *s.pick(&[(0.0005, 60_000), (0.001, 60_000), (0.002, 60_000), (0.001, 60_000), (0.0005, 60_000), (0.008, 300_000)]);
    let mut n = 64 + s.us(64);
    let (mut small, mut a) = loop {
        let Some(i) = input(&h, n, op, c)? else {
            c.ev("shape_not_accepted");
            return Ok(());
        };
        let a = measure(op, &i, 2)?;
        if a.0 >= goal || i.text.len() > most {
            break (i, a);
        }
        n *= 2;
    };
    for round in 0..4 {
        let Some(large) = input(&h, n * FACTOR, op, c)? else { return Ok(()) };
        let mut b = measure(op, &large, 1)?;
        let cpu = |a: (f64, usize), b: (f64, usize)| b.0 / a.0.max(5e-4);
        let mut tries = 0;
        while b.0 > 0.01 && cpu(a, b) > SUSPECT && tries < 2 {
            // rather the clock than the library?
            let a2 = measure(op, &small, 4)?;
            let b2 = measure(op, &large, 1)?;
            a = (a.0.max(a2.0), a.1);
            b = (b.0.min(b2.0), b.1.min(b2.1));
            tries += 1;
        }
        let (cpu, mem) = (cpu(a, b), b.1 as f64 / (a.1 as f64 + 4096.0));
        if std::env::var("R01_PRINT").is_ok() {
            eprintln!("{:6.1} {:6.1} {:8.4} {:10} {round} {op} | {} {:?} field {}", cpu, mem, b.0, large.text.len(), KINDS[h.kind], h.piece, FIELDS[h.field]);
        }
        if round == 0 {
            c.nontrivial(&(&h, op, n), || format!("{op}, {n} and {} {}: {:.1} ms and {:.1} ms", n * FACTOR, KINDS[h.kind], a.0 * 1e3, b.0 * 1e3));
        }
        c.ev(op);
        let what = format!("{op}: {FACTOR} times the {} ({} bytes instead of {})", KINDS[h.kind], large.text.len(), small.text.len());
        ensure!(mem <= MEM_FACTOR, "{what} request {mem:.1} times the memory, {} bytes instead of {}: {}", b.1, a.1, short(&small.text));
        ensure!(b.0 <= 0.02 || cpu <= CPU_FACTOR, "{what} take {cpu:.1} times the time, {:.0} ms instead of {:.1}: {}", b.0 * 1e3, a.0 * 1e3, short(&small.text));
        if b.0 <= 0.01 || b.0 > 0.6 || cpu <= SUSPECT {
            break;
        }
        // growth with the square shows more clearly on more
        c.ev("looked_at_larger_inputs");
        n *= 4;
        small = match input(&h, n, op, c)? {
            Some(i) => i,
            None => return Ok(()),
        };
        a = measure(op, &small, 2)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P12

fn escaped_text(s: &mut Src, bad: bool) -> String {
    let mut t = match s.us(4) {
        0 => gen::text(s, FREE).replace('\\', ""),
        1 => {
            let n = s.range(0, 6);
            (0..n).map(|_| *s.pick(&["\\n", "\\\\", "\\\"", "\\t", "\\r", "\\b", "\\v", "\\f", "n", "a", " ", "é", "中"])).collect()
        }
        2 => escape(&escape(&gen::text(s, FREE))).into_owned(),
        _ => escape(&gen::text(s, FREE)).into_owned(),
    };
    if bad {
        match s.us(3) {
            0 => t.push('\\'),
            1 => t.push_str(s.pick(&["\\q", "\\0", "\\é", "\\ ", "\\x41", "\\N"])),
            _ => t.insert_str(0, s.pick(&["\\q", "\\u00e9", "\\'"])),
        }
    }
    t
}

type Slot = fn(&mut POEntry) -> Option<&mut String>;

/// The texts that take part in unescaping (all but the plural translations).
const TEXTS: [Slot; 7] = [
    |e| Some(&mut e.msgid),
    |e| e.msgstr.as_mut(),
    |e| e.msgid_plural.as_mut(),
    |e| e.msgctxt.as_mut(),
    |e| e.previous_msgid.as_mut(),
    |e| e.previous_msgid_plural.as_mut(),
    |e| e.previous_msgctxt.as_mut(),
];

pub fn p12(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut e = any_entry(s);
    if s.chance(1, 2) {
        e.previous_msgid = gen::opt(s, 2, 3, FREE);
        e.previous_msgid_plural = gen::opt(s, 2, 3, FREE);
        e.previous_msgctxt = gen::opt(s, 2, 3, FREE);
    }
    // what the other fields hold is no text to unescape
    if s.chance(1, 3) {
        let t = escaped_text(s, s.clone_forward().chance(1, 2));
        match s.us(4) {
            0 => e.comment = Some(t),
            1 => e.tcomment = Some(t),
            2 => e.flags.push(t),
            _ => e.occurrences.push((t.clone(), t)),
        }
    }
    let places = TEXTS.len() + e.msgstr_plural.len();
    let bad = if s.chance(1, 4) { s.us(places) } else { usize::MAX };
    let bad2 = if s.chance(1, 20) { s.us(places) } else { usize::MAX };
    for (k, f) in TEXTS.iter().enumerate() {
        if let Some(t) = f(&mut e) {
            *t = escaped_text(s, k == bad || k == bad2);
        }
    }
    for k in 0..e.msgstr_plural.len() {
        let k2 = k + TEXTS.len();
        e.msgstr_plural[k] = escaped_text(s, k2 == bad || k2 == bad2);
    }
    let mut want = e.clone();
    let mut errors: Vec<EscapingError> = vec![];
    let mut escapes = 0;
    let mut one = |t: &mut String| -> Result<(), Viol> {
        escapes += t.contains('\\') as usize;
        match call("unescaping a text", || unescape(t).map(|t| t.into_owned()))? {
            Ok(u) => *t = u,
            Err(x) => errors.push(x),
        }
        Ok(())
    };
    for f in TEXTS {
        if let Some(t) = f(&mut want) {
            one(t)?;
        }
    }
    for t in &mut want.msgstr_plural {
        one(t)?;
    }
    if escapes > 0 {
        c.nontrivial(&format!("{e:?}"), || format!("{e:?}"));
    }
    c.evn("texts_with_escapes", escapes as u64);
    let got = call("unescaping an entry", || e.unescaped())?;
    match got {
        Ok(g) => {
            ensure!(errors.is_empty(), "{e:?} is unescaped to {g:?} in spite of {:?}", errors[0]);
            ensure!(g.same(&want), "{e:?} unescaped is {g:?}, expected {want:?}");
            c.ev("entries_compared");
        }
        Err(x) => {
            ensure!(!errors.is_empty(), "unescaping {e:?} gives {x:?}");
            let shown = format!("{x:?}");
            ensure!(errors.iter().any(|w| format!("{w:?}") == shown), "unescaping {e:?} gives {x:?}, expected {errors:?}");
            c.ev("errors_compared");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- Q06

fn change_text(s: &mut Src, t: &mut String) {
    match s.us(5) {
        0 => t.push(*s.pick(&['x', ' ', '\n', '\u{301}', '\0', '\t'])),
        1 => t.insert(0, *s.pick(&['x', ' ', '\n', '\u{feff}'])),
        2 if t.chars().any(|c| c.is_ascii_alphabetic()) => {
            // upper and lower case
            let i = t.char_indices().find(|(_, c)| c.is_ascii_alphabetic()).unwrap().0;
            let c = t.as_bytes()[i] as char;
            let d = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            t.replace_range(i..i + 1, &d.to_string());
        }
        3 if !t.is_empty() => {
            t.pop();
        }
        _ => t.push('!'),
    }
}

fn change_opt(s: &mut Src, t: &mut Option<String>) {
    match t {
        None => *t = Some(if s.chance(1, 2) { String::new() } else { "x".into() }),
        Some(x) if s.chance(1, 2) => change_text(s, x),
        Some(_) => *t = None,
    }
}

fn change_list(s: &mut Src, v: &mut Vec<String>) {
    match s.us(4) {
        0 if !v.is_empty() => {
            let i = s.us(v.len());
            v.remove(i);
        }
        1 if !v.is_empty() => {
            let i = s.us(v.len());
            change_text(s, &mut v[i]);
        }
        2 if v.len() > 1 && v[0] != v[v.len() - 1] => {
            let n = v.len();
            v.swap(0, n - 1);
        }
        _ => v.push(if s.chance(1, 2) { String::new() } else { "x".into() }),
    }
}

fn change_map(s: &mut Src, m: &mut std::collections::HashMap<String, String>) {
    let mut keys: Vec<String> = m.keys().cloned().collect();
    keys.sort();
    if keys.is_empty() || s.chance(1, 3) {
        let mut k = String::from("X-New");
        while m.contains_key(&k) {
            k.push('x');
        }
        m.insert(k, String::new());
        return;
    }
    let k = s.pick(&keys).clone();
    match s.us(3) {
        0 => {
            m.remove(&k);
        }
        1 => change_text(s, m.get_mut(&k).unwrap()),
        _ => {
            let v = m.remove(&k).unwrap();
            let mut k2 = k.clone() + "-";
            while m.contains_key(&k2) {
                k2.push('x');
            }
            m.insert(k2, v);
        }
    }
}

/// Change one part; gives its name.
fn change_po(s: &mut Src, e: &mut POEntry) -> &'static str {
    match s.us(14) {
        0 => {
            change_text(s, &mut e.msgid);
            "msgid"
        }
        1 => {
            change_opt(s, &mut e.msgstr);
            "msgstr"
        }
        2 => {
            change_opt(s, &mut e.msgid_plural);
            "msgid_plural"
        }
        3 => {
            change_list(s, &mut e.msgstr_plural);
            "msgstr_plural"
        }
        4 => {
            change_opt(s, &mut e.msgctxt);
            "msgctxt"
        }
        5 => {
            e.obsolete = !e.obsolete;
            "obsolete"
        }
        6 => {
            change_opt(s, &mut e.comment);
            "comment"
        }
        7 => {
            change_opt(s, &mut e.tcomment);
            "tcomment"
        }
        8 => {
            match s.us(4) {
                0 if !e.occurrences.is_empty() => {
                    e.occurrences.pop();
                }
                1 if !e.occurrences.is_empty() => {
                    let i = s.us(e.occurrences.len());
                    let o = &mut e.occurrences[i];
                    change_text(s, if s.clone_forward().chance(1, 2) { &mut o.0 } else { &mut o.1 });
                }
                2 if e.occurrences.len() > 1 && e.occurrences[0] != e.occurrences[1] => e.occurrences.swap(0, 1),
                _ => e.occurrences.push(("f.c".into(), "1".into())),
            }
            "occurrences"
        }
        9 => {
            change_list(s, &mut e.flags);
            "flags"
        }
        10 => {
            change_opt(s, &mut e.previous_msgid);
            "previous_msgid"
        }
        11 => {
            change_opt(s, &mut e.previous_msgid_plural);
            "previous_msgid_plural"
        }
        12 => {
            change_opt(s, &mut e.previous_msgctxt);
            "previous_msgctxt"
        }
        _ => {
            e.linenum ^= 1 << s.us(12);
            "linenum"
        }
    }
}

fn change_mo(s: &mut Src, e: &mut MOEntry) -> &'static str {
    match s.us(5) {
        0 => {
            change_text(s, &mut e.msgid);
            "msgid"
        }
        1 => {
            change_opt(s, &mut e.msgstr);
            "msgstr"
        }
        2 => {
            change_opt(s, &mut e.msgid_plural);
            "msgid_plural"
        }
        3 => {
            change_list(s, &mut e.msgstr_plural);
            "msgstr_plural"
        }
        _ => {
            change_opt(s, &mut e.msgctxt);
            "msgctxt"
        }
    }
}

fn change_options(s: &mut Src, o: &mut FileOptions) -> &'static str {
    match s.us(3) {
        0 => {
            change_text(s, &mut o.path_or_content);
            "path or content"
        }
        1 => {
            o.wrapwidth ^= 1 << s.us(10);
            "wrap width"
        }
        _ => {
            match &mut o.byte_content {
                None => o.byte_content = Some(vec![]),
                Some(b) if !b.is_empty() && s.chance(1, 2) => {
                    let k = s.us(b.len());
                    b[k] ^= 1 << s.us(8);
                }
                Some(b) if s.chance(1, 2) => b.push(0),
                Some(_) => o.byte_content = None,
            }
            "bytes"
        }
    }
}

fn compare<T: PartialEq + Clone + std::fmt::Debug>(what: &str, a: &T, b: &T, part: &str, c: &mut Ctx) -> Outcome {
    let k = call("cloning", || a.clone())?;
    let (e1, e2, n) = call("comparing", || (*a == k, k == *a, *a != k))?;
    ensure!(e1 && e2 && !n, "a copy of {what} is not equal to it: {a:?} and {k:?}");
    let (d1, d2, d3) = call("comparing", || (*a == *b, *b == *a, *a != *b))?;
    ensure!(!d1 && !d2 && d3, "two of {what} that differ in {part} are equal: {a:?} and {b:?}");
    c.ev(&format!("differing: {what}, {part}"));
    Ok(())
}

pub fn q06(s: &mut Src, c: &mut Ctx) -> Outcome {
    match s.us(5) {
        0 => {
            let a = any_entry(s);
            let mut b = a.clone();
            ensure!(b.same(&a), "a copy of {a:?} is {b:?}");
            let part = change_po(s, &mut b);
            c.nontrivial(&format!("{a:?}{b:?}"), || format!("{a:?} and, differing in {part}, {b:?}"));
            compare("PO entry", &a, &b, part, c)
        }
        1 => {
            let a = gen::mo_entry(s);
            let mut b = a.clone();
            ensure!(b.same(&a), "a copy of {a:?} is {b:?}");
            let part = change_mo(s, &mut b);
            c.nontrivial(&format!("{a:?}{b:?}"), || format!("{a:?} and, differing in {part}, {b:?}"));
            compare("MO entry", &a, &b, part, c)
        }
        2 => {
            let mut a = FileOptions::default();
            a.path_or_content = gen::text(s, FREE);
            a.wrapwidth = gen::wrapwidth(s);
            if s.chance(1, 2) {
                a.byte_content = Some(gen::text(s, FREE).into_bytes());
            }
            let mut b = a.clone();
            let part = change_options(s, &mut b);
            c.nontrivial(&format!("{a:?}{b:?}"), || format!("{a:?} and, differing in {part}, {b:?}"));
            compare("options", &a, &b, part, c)
        }
        3 => {
            let a = catalogue(s);
            let mut b = a.clone();
            let part = match s.us(6) {
                0 => {
                    change_opt(s, &mut b.header);
                    "header"
                }
                1 => {
                    change_map(s, &mut b.metadata);
                    "metadata"
                }
                2 => {
                    b.metadata_is_fuzzy = !b.metadata_is_fuzzy;
                    "metadata_is_fuzzy"
                }
                3 => change_options(s, &mut b.options),
                4 if !b.entries.is_empty() => {
                    let i = s.us(b.entries.len());
                    change_po(s, &mut b.entries[i])
                }
                _ => {
                    if b.entries.is_empty() || s.chance(1, 2) {
                        b.entries.push(POEntry::from("new"));
                    } else {
                        b.entries.pop();
                    }
                    "entries"
                }
            };
            c.nontrivial(&format!("{:?}{:?}{part}", a.entries, a.header), || format!("files of {} entries differing in {part}", a.entries.len()));
            compare("PO file", &a, &b, part, c)
        }
        _ => {
            let f = catalogue(s);
            let mut a = MOFile::from(&f);
            a.magic_number = *s.pick(&[None, Some(rspolib::MAGIC), Some(rspolib::MAGIC_SWAPPED)]);
            a.version = *s.pick(&[None, Some(0), Some(1)]);
            let mut b = a.clone();
            let part = match s.us(6) {
                0 => {
                    b.magic_number = if a.magic_number.is_none() { Some(rspolib::MAGIC) } else { None };
                    "magic number"
                }
                1 => {
                    b.version = if a.version == Some(0) { Some(1) } else { Some(0) };
                    "revision"
                }
                2 => {
                    change_map(s, &mut b.metadata);
                    "metadata"
                }
                3 => change_options(s, &mut b.options),
                4 if !b.entries.is_empty() => {
                    let i = s.us(b.entries.len());
                    change_mo(s, &mut b.entries[i])
                }
                _ => {
                    if b.entries.is_empty() || s.chance(1, 2) {
                        b.entries.push(MOEntry::from("new"));
                    } else {
                        b.entries.pop();
                    }
                    "entries"
                }
            };
            c.nontrivial(&format!("{:?}{:?}{part}", a.entries, a.version), || format!("MO files of {} entries differing in {part}", a.entries.len()));
            compare("MO file", &a, &b, part, c)
        }
    }
}

// ---------------------------------------------------------------- S04

const ACTS: [&str; 18] = [
    "read PO text", "read PO bytes", "read PO file", "read MO bytes", "read MO file", "read a missing file", "render", "render MO", "render entries", "convert", "write MO", "save PO", "save MO", "search", "list", "merge",
    "remove", "escape",
];

struct World {
    bytes: Vec<u8>,
    text: String,
    po_path: String,
    image: Vec<u8>,
    mo_path: String,
    out: String,
    file: POFile,
}

/// Some operations, whose results are dropped.
fn act(w: &World, acts: &[usize], round: usize) {
    let mut f = w.file.clone();
    // other texts in every round, of the same length
    let tag = format!("r{:03}", round % 1000);
    for e in f.entries.iter_mut().take(4) {
        e.msgid.push_str(&tag);
        if let Some(t) = &mut e.msgstr {
            t.push_str(&tag);
        }
    }
    for a in acts {
        match ACTS[*a] {
            "read PO text" => drop(pofile(w.text.as_str()).map_err(|e| e.to_string())),
            "read PO bytes" => drop(pofile(w.bytes.clone()).map_err(|e| e.to_string())),
            "read PO file" => drop(pofile(w.po_path.as_str()).map_err(|e| e.to_string())),
            "read MO bytes" => drop(mofile(w.image.clone()).map_err(|e| e.to_string())),
            "read MO file" => drop(mofile(w.mo_path.as_str()).map_err(|e| e.to_string())),
            "read a missing file" => {
                let p = format!("{}.missing.po", w.po_path);
                drop(pofile(p.as_str()).map_err(|e| e.to_string()));
                drop(mofile(p.as_str()).map_err(|e| e.to_string()));
            }
            "render" => drop(f.to_string()),
            "render MO" => drop(MOFile::from(&f).to_string()),
            "render entries" => f.entries.iter().for_each(|e| drop(e.to_string_with_wrapwidth(20) + &e.to_string())),
            "convert" => f.entries.iter().for_each(|e| drop((POEntry::from(&MOEntry::from(e)), e.unescaped().map_err(|e| e.to_string())))),
            "write MO" => drop((f.as_bytes().into_owned(), f.as_bytes_be().into_owned())),
            "save PO" => {
                let _ = f.save(&w.out);
            }
            "save MO" => {
                let _ = f.save_as_mofile(&w.out);
            }
            "search" => {
                drop(f.find(&tag, "msgid", None, true));
                drop(f.find_by_msgid_msgctxt(&tag, "c"));
                drop(f.entries.iter().map(|e| e.msgid_eot_msgctxt()).collect::<Vec<_>>());
            }
            "list" => {
                drop((f.translated_entries(), f.fuzzy_entries(), f.percent_translated()));
                drop(f.metadata_as_entry());
            }
            "merge" => {
                let mut g = w.file.clone();
                g.merge(f.clone());
            }
            "remove" => f.remove_by_msgid(&tag),
            _ => f.entries.iter().for_each(|e| drop(unescape(&escape(&e.msgid)).map(|t| t.into_owned()))),
        }
    }
}

fn fds() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = std::fs::read_dir("/proc/self/fd")
        .map(|d| {
            d.flatten()
                .filter_map(|e| {
                    let t = std::fs::read_link(e.path()).ok()?.to_string_lossy().into_owned();
                    // the descriptor used for this very listing
                    if t.ends_with("/fd") && t.starts_with("/proc/") {
                        return None;
                    }
                    Some((e.file_name().to_string_lossy().into_owned(), t))
                })
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}

fn status_line(name: &str) -> String {
    std::fs::read_to_string("/proc/self/status").unwrap_or_default().lines().find(|l| l.starts_with(name)).unwrap_or("").to_string()
}

type Surroundings = (Vec<(String, String)>, [String; 4], std::path::PathBuf, Vec<(std::ffi::OsString, std::ffi::OsString)>);

fn surroundings() -> Surroundings {
    (fds(), ["Threads:", "Umask:", "SigBlk:", "SigCgt:"].map(status_line), std::env::current_dir().unwrap_or_default(), std::env::vars_os().collect())
}

/// Names, contents and modification times of the files below a directory.
fn files(dir: &str, except: &str) -> BTreeMap<String, (Vec<u8>, Option<std::time::SystemTime>)> {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path().to_string_lossy().into_owned();
            if p != except {
                m.insert(p.clone(), (std::fs::read(&p).unwrap_or_default(), e.metadata().and_then(|m| m.modified()).ok()));
            }
        }
    }
    m
}

/// Standard output and error go to a file while this lives.
struct Redirected {
    saved: [i32; 2],
    path: String,
}

impl Redirected {
    fn new(path: String) -> Option<Redirected> {
        use std::os::fd::AsRawFd;
        let f = std::fs::File::create(&path).ok()?;
        unsafe {
            let saved = [libc::dup(1), libc::dup(2)];
            if saved[0] < 0 || saved[1] < 0 {
                return None;
            }
            libc::dup2(f.as_raw_fd(), 1);
            libc::dup2(f.as_raw_fd(), 2);
            Some(Redirected { saved, path })
        }
    }
    fn end(self) -> String {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            for k in 0..2 {
                libc::dup2(self.saved[k], k as i32 + 1);
                libc::close(self.saved[k]);
            }
        }
        String::from_utf8_lossy(&std::fs::read(&self.path).unwrap_or_default()).into_owned()
    }
}

pub fn s04(s: &mut Src, c: &mut Ctx) -> Outcome {
    let dir = format!("{}/s04", c.scratch);
    let _ = std::fs::remove_dir_all(&dir);
    if std::fs::create_dir_all(&dir).is_err() {
        return Ok(());
    }
    let file = catalogue(s);
    let bytes = if s.chance(1, 2) { any_po_bytes(s, true) } else { lib(|| file.to_string()).unwrap_or_default().into_bytes() };
    let image = if s.chance(1, 2) {
        match damaged(s)? {
            Some(d) => d.0,
            None => vec![],
        }
    } else {
        lib(|| file.as_bytes().into_owned()).unwrap_or_default()
    };
    let w = World { text: String::from_utf8_lossy(&bytes).into_owned(), bytes, po_path: format!("{dir}/in.po"), image, mo_path: format!("{dir}/in.mo"), out: format!("{dir}/out"), file };
    if std::fs::write(&w.po_path, &w.bytes).is_err() || std::fs::write(&w.mo_path, &w.image).is_err() {
        return Ok(());
    }
    let n = s.range(1, 4);
    let acts: Vec<usize> = (0..n).map(|_| s.us(ACTS.len())).collect();
    let names: Vec<&str> = acts.iter().map(|a| ACTS[*a]).collect();
    let before = (surroundings(), files(&dir, &w.out));
    let Some(r) = Redirected::new(format!("{}/s04-output", c.scratch)) else { return Ok(()) };
    let mut levels = [0usize; 12];
    let mut panicked = None;
    for round in 0..levels.len() {
        if let Err(p) = lib(|| act(&w, &acts, round)) {
            panicked = Some(p);
            break;
        }
        levels[round] = live();
    }
    let output = r.end();
    if panicked.is_some() {
        c.ev("panicked_left_to_others");
        return Ok(());
    }
    c.nontrivial(&(&acts, &w.bytes, &w.image), || format!("{names:?} on a file of {} entries, {} bytes of PO and {} of MO", w.file.entries.len(), w.bytes.len(), w.image.len()));
    for a in &names {
        c.ev(a);
    }
    ensure!(output.is_empty(), "{names:?} wrote to standard output or error: {}", short(&output));
    let after = (surroundings(), files(&dir, &w.out));
    ensure!(before.0 .0 == after.0 .0, "{names:?} left descriptors behind: before {:?}, after {:?}", before.0 .0, after.0 .0);
    ensure!(before.0 .1 == after.0 .1, "{names:?} changed the process: before {:?}, after {:?}", before.0 .1, after.0 .1);
    ensure!(before.0 .2 == after.0 .2 && before.0 .3 == after.0 .3, "{names:?} changed the working directory or the environment");
    for (p, v) in &before.1 {
        ensure!(after.1.get(p) == Some(v), "{names:?} changed the file {}", p.replace(&dir, ""));
    }
    for p in after.1.keys() {
        ensure!(before.1.contains_key(p), "{names:?} created the file {}", p.replace(&dir, ""));
    }
    // what is set up once is not a leak; what grows again and again is
    let grew = levels[1..].windows(2).filter(|p| p[1] > p[0]).count();
    ensure!(grew < 3 || levels[11] <= levels[1], "{names:?} keep more memory in every repetition: bytes in use after each {levels:?}");
    c.evn("repetitions", levels.len() as u64);
    Ok(())
}
