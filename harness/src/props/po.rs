//! PO text properties: P01-P09, E01.

use super::Prop;
use crate::doc::{self, K};
use crate::ensure;
use crate::eq::{self, Same};
use crate::gen::{self, EntryOpts, FREE, LINE, T};
use crate::mon::{call, cpu_secs, lib, measure_mem, viol, Ctx, Outcome, Viol};
use crate::src::Src;
use rspolib::errors::{EscapingError, SyntaxError};
use rspolib::escaping::{escape, unescape};
use rspolib::{pofile, FileOptions, MOEntry, MOFile, POEntry, POFile};
use std::sync::OnceLock;
use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", f: p01, rule: "catalogue with at least one entry was rendered and re-read; distinct by rendered text", quick: 480_000, thorough: 3_360_000 },
        Prop { id: "P02", f: p02, rule: "catalogue with at least one annotation was rendered and re-read; distinct by rendered text", quick: 720_000, thorough: 5_040_000 },
        Prop { id: "P03", f: p03, rule: "text accepted by the reader and holding at least one entry; distinct by text", quick: 960_000, thorough: 6_720_000 },
        Prop { id: "P04", f: p04, rule: "input with at least one non-blank line was given to the reader; distinct by input", quick: 1_800_000, thorough: 12_600_000 },
        Prop { id: "P05", f: p05, rule: "document with at least one entry, read in a generated layout; distinct by text", quick: 640_000, thorough: 4_480_000 },
        Prop { id: "P06", f: p06, rule: "document with one damaged line; distinct by text", quick: 520_000, thorough: 3_640_000 },
        Prop { id: "P07", f: p07, rule: "content supplied through at least four routes; distinct by content", quick: 400_000, thorough: 2_800_000 },
        Prop { id: "P08", f: p08, rule: "string containing at least one character that needs escaping, or a backslash; distinct by string", quick: 12_000_000, thorough: 84_000_000 },
        Prop { id: "P09", f: p09, rule: "at least one string was wrapped or sat within two columns of the limit; distinct by rendered text", quick: 2_000_000, thorough: 14_000_000 },
        Prop { id: "E01", f: e01, rule: "document with at least two entries; distinct by text", quick: 400_000, thorough: 3_360_000 },
    ]
}

pub fn short(s: &str) -> String {
    let mut t: String = s.chars().take(700).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    format!("{t:?}")
}

/// (ctx, id, plural, str, strs) with an absent singular translation written
/// out as the empty string, as the file format does.
pub fn norm_entry(e: &POEntry) -> POEntry {
    let mut e = e.clone();
    if e.msgstr_plural.is_empty() {
        e.msgstr = Some(e.msgstr.unwrap_or_default());
    } else {
        e.msgstr = None;
    }
    e
}

fn text_diff(a: &POEntry, b: &POEntry) -> Option<String> {
    let a = norm_entry(a);
    let b = norm_entry(b);
    if a.msgctxt != b.msgctxt {
        return Some(format!("context {:?} became {:?}", a.msgctxt, b.msgctxt));
    }
    if a.msgid != b.msgid {
        return Some(format!("id {:?} became {:?}", a.msgid, b.msgid));
    }
    if a.msgid_plural != b.msgid_plural {
        return Some(format!("plural id {:?} became {:?}", a.msgid_plural, b.msgid_plural));
    }
    if a.msgstr != b.msgstr {
        return Some(format!("translation {:?} became {:?}", a.msgstr, b.msgstr));
    }
    if a.msgstr_plural != b.msgstr_plural {
        return Some(format!("plural translations {:?} became {:?}", a.msgstr_plural, b.msgstr_plural));
    }
    if a.obsolete != b.obsolete {
        return Some(format!("obsolete mark {:?} became {:?}", a.obsolete, b.obsolete));
    }
    None
}

fn active_then_obsolete(v: &[POEntry]) -> Vec<&POEntry> {
    let mut out: Vec<&POEntry> = v.iter().filter(|e| !e.obsolete).collect();
    out.extend(v.iter().filter(|e| e.obsolete));
    out
}

fn file_with(s: &mut Src, w: usize, annotations: bool) -> POFile {
    let mut f = POFile::new(("", w).into());
    let o = EntryOpts { key: FREE, val: FREE, annotations, width: w };
    let n = gen::nentries(s);
    for _ in 0..n {
        let mut e = gen::po_entry(s, &o);
        if !f.entries.is_empty() && s.chance(1, 6) {
            e.msgid = f.entries[s.us(f.entries.len())].msgid.clone();
            if e.msgid.is_empty() && e.msgctxt.is_none() {
                e.msgid = "m".into();
            }
        }
        f.entries.push(e);
    }
    for i in 0..gen::bulk(s, 20_000) {
        let mut e = POEntry::from((format!("{i}").as_str(), "t"));
        e.obsolete = i % 11 == 4;
        if i % 7 == 3 {
            e.msgid_plural = Some("p".into());
            e.msgstr_plural = vec![format!("{i}"), "f".into()];
            e.msgstr = None;
        }
        f.entries.push(e);
    }
    f
}

pub fn read(t: &str, w: usize) -> Result<Result<POFile, SyntaxError>, Viol> {
    call("reading PO text", || pofile((t, w)))
}

pub fn p01(s: &mut Src, c: &mut Ctx) -> Outcome {
    let w = gen::wrapwidth(s);
    let mut f = file_with(s, w, false);
    if s.chance(1, 2) {
        f.metadata = gen::metadata(s);
    }
    let t = call("rendering", || f.to_string())?;
    if !f.entries.is_empty() {
        c.nontrivial(&t, || t.clone());
    }
    c.evn("entries_compared", f.entries.len() as u64);
    c.ev_if(t.contains("\"\"\n\""), "cases_with_wrapped_string");
    c.ev_if(w < 10, "cases_width_below_10");
    let g = match read(&t, w)? {
        Ok(g) => g,
        Err(e) => return viol(format!("rendered text rejected at width {w}: {e}; text {}", short(&t))),
    };
    let want = active_then_obsolete(&f.entries);
    ensure!(
        want.len() == g.entries.len(),
        "{} entries written, {} read back at width {w}; text {}",
        want.len(),
        g.entries.len(),
        short(&t)
    );
    for (a, b) in want.iter().zip(&g.entries) {
        if let Some(d) = text_diff(a, b) {
            return viol(format!("{d} at width {w}; text {}", short(&t)));
        }
    }
    // a single entry rendered on its own
    if let Some(e) = f.entries.first() {
        if !e.msgid.is_empty() && s.chance(1, 4) {
            let t = call("rendering an entry", || e.to_string_with_wrapwidth(w))?;
            match read(&t, w)? {
                Ok(g) => {
                    ensure!(g.entries.len() == 1, "one entry written, {} read; text {}", g.entries.len(), short(&t));
                    if let Some(d) = text_diff(e, &g.entries[0]) {
                        return viol(format!("entry on its own: {d} at width {w}; text {}", short(&t)));
                    }
                    c.ev("single_entries_compared");
                }
                Err(e) => return viol(format!("rendered entry rejected: {e}; text {}", short(&t))),
            }
        }
    }
    Ok(())
}

pub(crate) fn cw(s: &str) -> usize {
    s.chars().map(|c| c.width().unwrap_or(0)).sum()
}

fn max_width(s: &str) -> usize {
    s.width().max(cw(s))
}

/// Comment comparison: lines that fit are exact, wider ones may be split.
fn comment_diff(a: &Option<String>, b: &Option<String>, prefix: usize, w: usize) -> Option<String> {
    let (a, b) = match (a, b) {
        (None, None) => return None,
        (Some(a), Some(b)) => (a, b),
        _ => return Some(format!("comment {a:?} became {b:?}")),
    };
    if a == b {
        return None;
    }
    let bl: Vec<&str> = b.split('\n').collect();
    let mut i = 0;
    for l in a.split('\n') {
        if max_width(l).saturating_add(prefix) <= w {
            if bl.get(i) != Some(&l) {
                return Some(format!("comment line {l:?} became {:?} (comment {a:?} read as {b:?})", bl.get(i)));
            }
            i += 1;
            continue;
        }
        let want: String = l.chars().filter(|c| !c.is_whitespace()).collect();
        let mut got = String::new();
        while got.len() < want.len() && i < bl.len() {
            got.extend(bl[i].chars().filter(|c| !c.is_whitespace()));
            i += 1;
        }
        if got != want {
            return Some(format!("wide comment line {l:?} read back as {got:?} (comment {b:?})"));
        }
        if want.is_empty() {
            i += 1;
        }
    }
    if i < bl.len() {
        return Some(format!("extra comment lines {:?}", &bl[i..]));
    }
    None
}

pub fn p02(s: &mut Src, c: &mut Ctx) -> Outcome {
    let w = gen::wrapwidth(s);
    let mut f = file_with(s, w, true);
    f.header = gen::header(s);
    f.metadata = gen::metadata(s);
    f.metadata_is_fuzzy = s.chance(1, 3);
    let t = call("rendering", || f.to_string())?;
    let any = f.entries.iter().any(|e| {
        e.tcomment.is_some()
            || e.comment.is_some()
            || !e.flags.is_empty()
            || !e.occurrences.is_empty()
            || e.previous_msgid.is_some()
            || e.previous_msgctxt.is_some()
            || e.previous_msgid_plural.is_some()
    });
    if any || !f.metadata.is_empty() || f.header.is_some() {
        c.nontrivial(&t, || t.clone());
    }
    let g = match read(&t, w)? {
        Ok(g) => g,
        Err(e) => return viol(format!("rendered text rejected at width {w}: {e}; text {}", short(&t))),
    };
    let tail = || format!("at width {w}; text {}", short(&t));
    ensure!(
        f.header.clone().unwrap_or_default().trim_end_matches('\n') == g.header.clone().unwrap_or_default().trim_end_matches('\n'),
        "header {:?} became {:?} {}",
        f.header,
        g.header,
        tail()
    );
    ensure!(f.metadata == g.metadata, "metadata {:?} became {:?} {}", f.metadata, g.metadata, tail());
    ensure!(
        f.metadata_is_fuzzy == g.metadata_is_fuzzy,
        "metadata fuzzy mark {} became {} {}",
        f.metadata_is_fuzzy,
        g.metadata_is_fuzzy,
        tail()
    );
    c.evn("metadata_fields", f.metadata.len() as u64);
    let want = active_then_obsolete(&f.entries);
    ensure!(want.len() == g.entries.len(), "{} entries written, {} read back {}", want.len(), g.entries.len(), tail());
    for (a, b) in want.iter().zip(&g.entries) {
        ensure!(a.obsolete == b.obsolete, "obsolete mark changed on {:?} {}", a.msgid, tail());
        ensure!(a.flags == b.flags, "flags {:?} became {:?} {}", a.flags, b.flags, tail());
        if let Some(d) = comment_diff(&a.tcomment, &b.tcomment, 2, w) {
            return viol(format!("translator {d} {}", tail()));
        }
        if let Some(d) = comment_diff(&a.comment, &b.comment, 3, w) {
            return viol(format!("extracted {d} {}", tail()));
        }
        c.ev_if(a.tcomment.is_some(), "translator_comments");
        c.ev_if(a.comment.is_some(), "extracted_comments");
        c.evn("flags", a.flags.len() as u64);
        if a.obsolete {
            c.ev("obsolete_entries");
            continue;
        }
        c.evn("references", a.occurrences.len() as u64);
        ensure!(a.occurrences == b.occurrences, "references {:?} became {:?} {}", a.occurrences, b.occurrences, tail());
        for (n, x, y) in [
            ("context", &a.previous_msgctxt, &b.previous_msgctxt),
            ("id", &a.previous_msgid, &b.previous_msgid),
            ("plural id", &a.previous_msgid_plural, &b.previous_msgid_plural),
        ] {
            c.ev_if(x.is_some(), "previous_values");
            ensure!(x == y, "previous {n} {x:?} became {y:?} {}", tail());
        }
        if let Some(d) = text_diff(a, b) {
            return viol(format!("{d} {}", tail()));
        }
    }
    Ok(())
}

// ---- input material for the reader ----

fn corpus() -> &'static Vec<Vec<u8>> {
    static C: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        let mut names: Vec<_> = std::fs::read_dir("/repo/rust/tests-data")
            .map(|d| d.flatten().map(|e| e.path()).collect())
            .unwrap_or_default();
        names.sort();
        for p in names {
            if p.extension().is_some_and(|e| e == "po") {
                if let Ok(b) = std::fs::read(&p) {
                    // long catalogues are used in slices
                    if b.len() < 60_000 {
                        v.push(b);
                    } else {
                        v.push(b[..20_000].to_vec());
                    }
                }
            }
        }
        v.push(b"#\nmsgid \"\"\nmsgstr \"\"\n\"Language: es\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n".to_vec());
        v
    })
}

fn soup_string(s: &mut Src) -> String {
    match s.us(10) {
        0 => String::new(),
        1..=5 => {
            let t = gen::text(s, T { nul: true, eot: true, nl: true, max: 120 });
            t.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")
        }
        6 => s.pick(&["\\", "\\q", "a\\", "\\x41", "\\0", "\"", "a\"b", "é", "Key: v\\n", ": x", "K:v", "a: b\\na: c\\n", "\\\\\\"]).to_string(),
        _ => s.pick(&["a", "b", "c", "", "x y"]).to_string(),
    }
}

/// A line-level soup of PO fragments, well-formed or not.
pub fn soup(s: &mut Src, hostile: bool) -> String {
    let n = s.range(1, 14);
    let mut t = String::new();
    for _ in 0..n {
        let q = soup_string(s);
        let ob = if s.chance(1, 8) { *s.pick(&["#~ ", "#~", "#~\t", "#~  "]) } else { "" };
        let ind = if s.chance(1, 10) { *s.pick(&[" ", "\t", "\u{a0}", "\u{3000}"]) } else { "" };
        let l = match s.weighted(&[6, 6, 3, 2, 4, 3, 3, 2, 2, 3, 3, 2, if hostile { 6 } else { 1 }]) {
            0 => format!("msgid \"{q}\""),
            1 => format!("msgstr \"{q}\""),
            2 => format!("msgctxt \"{q}\""),
            3 => format!("msgid_plural \"{q}\""),
            4 => {
                let i = match s.us(if hostile { 8 } else { 5 }) {
                    0 => "0".to_string(),
                    1 => "1".to_string(),
                    2 => "2".to_string(),
                    3 => s.us(12).to_string(),
                    4 => "00".to_string(),
                    5 => s.pick(&["", "x", "-1", "18446744073709551615", "18446744073709551616", "4000000000", "99999999", "1e3", "0x1", "+1", "é", "1]["]).to_string(),
                    6 => format!("{}", s.below(100000)),
                    _ => format!("{}", s.below(1 << 40)),
                };
                format!("msgstr[{i}] \"{q}\"")
            }
            5 => format!("\"{q}\""),
            6 => format!("# {}", gen::text(s, LINE)),
            7 => format!("#. {}", gen::text(s, LINE)),
            8 => format!("#, {}", s.pick(&["fuzzy", "fuzzy, c-format", "a,b,", ",", " , ", "", "x"])),
            9 => format!("#: {}", s.pick(&["a:1 b:2", "f", "f:", ":1", ":", "a:b:1", "a:1:2", "", "  x  y ", "C:\\x:1"])),
            10 => {
                let kw = *s.pick(&["msgid", "msgctxt", "msgid_plural", "", "", "msgstr", "foo"]);
                let sp = *s.pick(&[" ", "  ", "", "\t"]);
                format!("#|{sp}{kw} \"{q}\"")
            }
            11 => String::new(),
            _ => match s.us(12) {
                0 => "\"".to_string(),
                1 => "msgid".to_string(),
                2 => "msgid \"".to_string(),
                3 => "msgid a".to_string(),
                4 => "msgid é".to_string(),
                5 => format!("msgid {q}"),
                6 => format!("msgstr[0] {q}"),
                7 => "msgstr[0]".to_string(),
                8 => "#".to_string(),
                9 => s.pick(&["#~", "#|", "#~|", "#é", "##", "###", "#~| msgid \"x\"", "#| msgid", "#| \"", "#| msgid x y", "#|msgid \"x\"", "#,fuzzy", "#:a", "#.x"]).to_string(),
                10 => gen::text(s, LINE),
                _ => {
                    let d = gen::dict();
                    s.pick(&d.strs).clone()
                }
            },
        };
        t.push_str(ind);
        t.push_str(ob);
        t.push_str(&l);
        t.push_str(if s.chance(1, 12) { "\r\n" } else { "\n" });
    }
    t
}

/// Line- and byte-level mutations.
fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    let n = s.range(1, 4);
    for _ in 0..n {
        if b.is_empty() {
            b.push(b'"');
        }
        let at = s.us(b.len());
        match s.us(11) {
            0 => {
                b.remove(at);
            }
            1 => b.insert(at, *s.pick(b"\"\\#~|,.:[]0 \n\tm")),
            2 => b[at] = *s.pick(b"\"\\#~|,.:[]0 \n\tm"),
            3 => b[at] = s.below(256) as u8,
            4 => b.truncate(at),
            5 => {
                let k = at + s.us((b.len() - at).min(60));
                b.drain(at..k);
            }
            6 => {
                let ins = s.pick(&["é", "中", "\u{feff}", "\u{2028}", "\u{a0}", "msgid \"x\"\n", "\n\"y\"\n", "msgstr[7] \"z\"\n", "#~ "]).as_bytes().to_vec();
                b.splice(at..at, ins);
            }
            _ => {
                // line operations
                let mut ls: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                let i = s.us(ls.len());
                let j = s.us(ls.len());
                match s.us(5) {
                    0 => {
                        ls.remove(i);
                    }
                    1 => {
                        let l = ls[i].clone();
                        ls.insert(j, l);
                    }
                    2 => ls.swap(i, j),
                    3 => {
                        let l = soup(s, true).into_bytes();
                        ls.insert(i, l);
                    }
                    _ => {
                        let keep = i + 1;
                        ls.truncate(keep);
                    }
                }
                *b = ls.join(&b'\n');
            }
        }
    }
}

fn slice_of_corpus(s: &mut Src) -> Vec<u8> {
    let c = corpus();
    let b = s.pick(c);
    if b.len() < 1500 || s.chance(1, 20) {
        return b.clone();
    }
    // a window of whole lines
    let a = s.us(b.len());
    let e = (a + s.range(100, 1500)).min(b.len());
    let a = b[..a].iter().rposition(|x| *x == b'\n').map(|i| i + 1).unwrap_or(0);
    b[a..e].to_vec()
}

pub fn any_po_bytes(s: &mut Src, hostile: bool) -> Vec<u8> {
    match s.weighted(&[3, 4, 4, if hostile { 2 } else { 0 }]) {
        0 => {
            let d = doc::doc(s);
            let lay = doc::layout(s);
            let mut b = doc::render(s, &d, &lay).text().into_bytes();
            if hostile && s.chance(2, 3) {
                mutate(s, &mut b);
            }
            b
        }
        1 => {
            let mut b = slice_of_corpus(s);
            if s.chance(3, 4) {
                mutate(s, &mut b);
            }
            b
        }
        2 => {
            let mut b = soup(s, hostile).into_bytes();
            if hostile && s.chance(1, 3) {
                mutate(s, &mut b);
            }
            b
        }
        _ => {
            let n = s.range(0, 60);
            match s.us(3) {
                0 => (0..n).map(|_| s.below(256) as u8).collect(),
                1 => (0..n).map(|_| *s.pick(b"\"\\#~|,.:[]0 \n\tmsgidctx_plura\r")).collect(),
                _ => gen::text(s, FREE).into_bytes(),
            }
        }
    }
}

pub fn p03(s: &mut Src, c: &mut Ctx) -> Outcome {
    let w = gen::wrapwidth(s);
    let b = any_po_bytes(s, false);
    let t = String::from_utf8_lossy(&b).into_owned();
    let f1 = match lib(|| pofile((t.as_str(), w))) {
        Ok(Ok(f)) => f,
        Ok(Err(_)) => {
            c.ev("rejected_inputs");
            return Ok(());
        }
        Err(_) => {
            // reading totality is P04's business
            c.ev("reader_panics_left_to_P04");
            return Ok(());
        }
    };
    if f1.entries.iter().any(|e| e.obsolete && (e.previous_msgid.is_some() || e.previous_msgctxt.is_some() || e.previous_msgid_plural.is_some())) {
        c.ev("skipped_previous_on_obsolete");
        return Ok(());
    }
    let t1 = call("rendering", || f1.to_string())?;
    if !f1.entries.is_empty() {
        c.nontrivial(&t, || t.clone());
    }
    let f2 = match read(&t1, w)? {
        Ok(f) => f,
        Err(e) => return viol(format!("own output rejected: {e}; input {} output {}", short(&t), short(&t1))),
    };
    let t2 = call("rendering", || f2.to_string())?;
    ensure!(t1 == t2, "second save differs at width {w}: {} then {}; input {}", short(&t1), short(&t2), short(&t));
    let a = active_then_obsolete(&f1.entries);
    ensure!(
        a.len() == f2.entries.len(),
        "{} entries became {} at width {w}; input {} output {}",
        a.len(),
        f2.entries.len(),
        short(&t),
        short(&t1)
    );
    for (x, y) in a.iter().zip(&f2.entries) {
        ensure!(
            x.msgid == y.msgid && x.msgctxt == y.msgctxt && x.obsolete == y.obsolete,
            "entry {:?}/{:?} became {:?}/{:?} at width {w}; input {}",
            x.msgctxt,
            x.msgid,
            y.msgctxt,
            y.msgid,
            short(&t)
        );
    }
    c.evn("entries_tracked", a.len() as u64);
    Ok(())
}

pub fn err_line(e: &SyntaxError) -> Option<usize> {
    match e {
        SyntaxError::UnescapedDoubleQuoteFound { line, .. } => Some(*line),
        SyntaxError::Custom { line, .. } => Some(*line),
        SyntaxError::Generic { line, .. } => Some(*line),
        _ => None,
    }
}

pub fn p04(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut b = any_po_bytes(s, true);
    if s.chance(1, 400) {
        // a long input
        let k = s.range(2, 60);
        b = b.repeat(k);
        b.truncate(300_000);
    }
    let route = s.us(4);
    let as_text = String::from_utf8(b.clone());
    let path = c.spell(s, "in.po");
    let t0 = cpu_secs();
    let (r, peak, _) = match (route, &as_text) {
        (0, Ok(t)) | (1, Ok(t)) => {
            c.ev("route_string");
            measure_mem(|| lib(|| pofile(t.as_str())))
        }
        (2, _) => {
            c.ev("route_file");
            if std::fs::write(&path, &b).is_err() {
                return Ok(());
            }
            measure_mem(|| lib(|| pofile(path.as_str())))
        }
        _ => {
            c.ev("route_bytes");
            let b2 = b.clone();
            measure_mem(|| lib(|| pofile(b2)))
        }
    };
    let cpu = cpu_secs() - t0;
    if b.iter().any(|x| !x.is_ascii_whitespace()) {
        c.nontrivial(&b, || String::from_utf8_lossy(&b).into_owned());
    }
    let shown = short(&String::from_utf8_lossy(&b));
    c.ev_if(as_text.is_err(), "inputs_not_utf8");
    let r = match r {
        Ok(r) => r,
        Err(p) => return viol(format!("reader panicked: {p}; input {shown}")),
    };
    // generous: 2 MiB plus 512 bytes per input byte
    let bound = (2usize << 20) + b.len() * 512;
    ensure!(peak <= bound, "reader used {peak} bytes for an input of {} bytes; input {shown}", b.len());
    ensure!(cpu <= 30.0, "reader used {cpu:.1} s of CPU for an input of {} bytes; input {shown}", b.len());
    match r {
        Ok(f) => {
            c.ev("accepted");
            // every part of the result is usable
            c.evn("entries_read", f.entries.len() as u64);
        }
        Err(e) => {
            c.ev("rejected");
            let lines = b.iter().filter(|x| **x == b'\n').count() + 1;
            if let Some(l) = err_line(&e) {
                ensure!(l >= 1 && l <= lines, "error reports line {l} of an input of {lines} lines: {e}; input {shown}");
                c.ev("error_lines_checked");
            }
        }
    }
    Ok(())
}

pub fn po_diff(want: &POFile, got: &POFile) -> Option<String> {
    if want.header != got.header {
        return Some(format!("header {:?} read as {:?}", want.header, got.header));
    }
    if want.metadata != got.metadata {
        return Some(format!("metadata {:?} read as {:?}", want.metadata, got.metadata));
    }
    if want.metadata_is_fuzzy != got.metadata_is_fuzzy {
        return Some(format!("metadata fuzzy mark {:?} read as {:?}", want.metadata_is_fuzzy, got.metadata_is_fuzzy));
    }
    if want.entries.len() != got.entries.len() {
        return Some(format!("{} entries written, {} read", want.entries.len(), got.entries.len()));
    }
    for (i, (a, b)) in want.entries.iter().zip(&got.entries).enumerate() {
        let mut a = norm_entry(a);
        // an absent translation is only distinguishable from an empty one by
        // the keyword being there; the documents always write it
        let mut b = b.clone();
        a.linenum = 0;
        b.linenum = 0;
        if !a.same(&b) {
            return Some(format!("entry {i}: expected {a:?}, read {b:?}"));
        }
    }
    None
}

pub fn p05(s: &mut Src, c: &mut Ctx) -> Outcome {
    let d = doc::doc(s);
    let lay = doc::layout(s);
    let r = doc::render(s, &d, &lay);
    let t = r.text();
    if !d.entries.is_empty() {
        c.nontrivial(&t, || t.clone());
    }
    c.ev_if(r.eol == "\r\n", "crlf");
    c.ev_if(r.bom, "bom");
    c.ev_if(!r.final_nl, "no_final_newline");
    c.evn("physical_lines", r.lines.len() as u64);
    c.evn("continuations", r.lines.iter().filter(|l| matches!(l.kind, K::Cont | K::PrevCont)).count() as u64);
    c.evn("entries", d.entries.len() as u64);
    match read(&t, 78)? {
        Ok(f) => {
            if let Some(x) = po_diff(&d.expected(), &f) {
                return viol(format!("{x}; text {}", short(&t)));
            }
        }
        Err(e) => return viol(format!("well-formed text rejected: {e}; text {}", short(&t))),
    }
    Ok(())
}

pub fn e01(s: &mut Src, c: &mut Ctx) -> Outcome {
    let d = doc::doc(s);
    let lay = doc::layout(s);
    let r = doc::render(s, &d, &lay);
    let t = r.text();
    if d.entries.len() >= 2 {
        c.nontrivial(&t, || t.clone());
    }
    let mut f = match read(&t, 78)? {
        Ok(f) => f,
        Err(_) => {
            c.ev("rejected_left_to_P05");
            return Ok(());
        }
    };
    if f.entries.len() != d.entries.len() {
        c.ev("miscounted_left_to_P05");
        return Ok(());
    }
    let starts = r.starts(&d);
    for (i, (e, want)) in f.entries.iter().zip(&starts).enumerate() {
        ensure!(e.linenum == *want, "entry {i} ({:?}) starts on line {want} but reports {}; text {}", e.msgid, e.linenum, short(&t));
    }
    c.evn("line_numbers_checked", starts.len() as u64);
    if !f.entries.is_empty() {
        let before: Vec<usize> = f.entries.iter().map(|e| e.linenum).collect();
        let _ = call("rendering", || f.to_string())?;
        let i = s.us(f.entries.len());
        let id = f.entries[i].msgid.clone();
        let found = call("finding", || f.find_by_msgid(&id))?;
        let at = f.entries.iter().position(|e| e.msgid == id).unwrap();
        ensure!(found.map(|e| e.linenum) == Some(before[at]), "lookup changed the line number of {id:?}");
        let _ = call("converting", || MOFile::from(&f))?;
        let hit = call("searching", || f.find(&id, "msgid", None, true).iter().map(|e| e.linenum).collect::<Vec<_>>())?;
        let want: Vec<usize> = f.entries.iter().filter(|e| e.msgid == id).map(|e| e.linenum).collect();
        ensure!(hit == want, "search changed line numbers: {hit:?} for {want:?}");
        let un = call("unescaping", || f.entries[i].unescaped())?;
        if let Ok(u) = un {
            ensure!(u.linenum == before[i], "unescaping changed the line number");
        }
        let copy = f.entries[i].clone();
        call("removing", || f.remove_by_msgid(&id))?;
        ensure!(copy.linenum == before[i], "line number changed");
        let rest: Vec<usize> = f.entries.iter().map(|e| e.linenum).collect();
        let want: Vec<usize> = d.entries.iter().zip(&starts).filter(|(e, _)| e.msgid != id).map(|(_, l)| *l).collect();
        ensure!(rest == want, "removal changed line numbers: {rest:?} for {want:?}");
    }
    Ok(())
}

// ---- P06 ----

fn trailing_backslashes(s: &str) -> usize {
    s.chars().rev().take_while(|c| *c == '\\').count()
}

pub fn p06(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut d = doc::doc(s);
    d.entries.truncate(8);
    let lay = doc::layout(s);
    let mut r = doc::render(s, &d, &lay);
    // the text must be fine before the damage; otherwise P05 speaks
    let t0 = r.text();
    match read(&t0, 78)? {
        Ok(_) => {}
        Err(_) => {
            c.ev("rejected_before_damage_left_to_P05");
            return Ok(());
        }
    }
    let strs: Vec<usize> = r.lines.iter().enumerate().filter(|(_, l)| l.quotes.is_some()).map(|(i, _)| i).collect();
    let kind = s.us(12);
    let mut bytes: Option<Vec<u8>> = None;
    let (at, what): (usize, &str) = match kind {
        0 | 1 | 2 | 3 | 4 | 5 if strs.is_empty() => return Ok(()),
        0 => {
            let i = *s.pick(&strs);
            let l = &mut r.lines[i];
            let (_, q) = l.quotes.unwrap();
            l.text.truncate(q);
            // dropping the quote of a string that is empty leaves a lone
            // quote, which is just as unterminated
            (i, "closing quote missing")
        }
        1 => {
            let i = *s.pick(&strs);
            let l = &mut r.lines[i];
            let (q, e) = l.quotes.unwrap();
            let inner = l.text[q + 1..e].to_string();
            if matches!(l.kind, K::Cont | K::PrevCont) {
                // without its quote the line could be read as something else
                let first = inner.chars().next().unwrap_or(' ');
                if !first.is_alphanumeric() || inner.starts_with("msg") {
                    return Ok(());
                }
            } else if inner.is_empty() || inner.starts_with("\\\"") {
                // `msgid "`: same as a missing closing quote
                return Ok(());
            }
            l.text.remove(q);
            (i, "opening quote missing")
        }
        2 => {
            let i = *s.pick(&strs);
            let l = &mut r.lines[i];
            let (q, e) = l.quotes.unwrap();
            let inner = &l.text[q + 1..e];
            // insert between units, never after a lone backslash
            let cuts: Vec<usize> = inner
                .char_indices()
                .map(|(k, _)| k)
                .chain([inner.len()])
                .filter(|k| trailing_backslashes(&inner[..*k]) % 2 == 0)
                .collect();
            let k = *s.pick(&cuts);
            l.text.insert(q + 1 + k, '"');
            (i, "unescaped quote")
        }
        3 => {
            let kws: Vec<usize> = strs.iter().copied().filter(|i| matches!(r.lines[*i].kind, K::Kw | K::Prev)).collect();
            let i = *s.pick(&kws);
            let l = &mut r.lines[i];
            let (q, _) = l.quotes.unwrap();
            let head = l.text[..q].to_string();
            let at = head.find("msg").unwrap();
            let mut word = head[at..].trim_end().to_string();
            let gap = head[at + word.len()..].to_string();
            word = match s.us(7) {
                0 => format!("{word}x"),
                1 => word.replacen("msg", "mgs", 1),
                2 => word.replacen("msg", "Msg", 1),
                3 => word.to_uppercase(),
                4 => "domain".to_string(),
                5 => word[..word.len() - 1].to_string(),
                _ => format!("x{word}"),
            };
            // still a keyword? (dropping the last letter never makes one)
            l.text = format!("{}{}{}{}", &head[..at], word, gap, &l.text[q..]);
            (i, "unknown keyword")
        }
        4 => {
            let i = *s.pick(&strs);
            let l = &mut r.lines[i];
            let (q, e) = l.quotes.unwrap();
            let inner = &l.text[q + 1..e];
            let cuts: Vec<usize> = inner
                .char_indices()
                .map(|(k, _)| k)
                .chain([inner.len()])
                .filter(|k| trailing_backslashes(&inner[..*k]) % 2 == 0)
                .collect();
            let k = *s.pick(&cuts);
            let bad = match s.us(3) {
                0 => s.pick(&["\\q", "\\x41", "\\0", "\\N", "\\é", "\\ ", "\\'", "\\a", "\\e", "\\/", "\\中"]).to_string(),
                _ => {
                    let mut ch = char::from_u32(s.range(0x20, 0x17f) as u32).unwrap_or('q');
                    if matches!(ch, '"' | 'n' | 'r' | 't' | 'b' | 'v' | 'f' | '\\') || (0x7f..0xa0).contains(&(ch as u32)) {
                        ch = 'q';
                    }
                    format!("\\{ch}")
                }
            };
            l.text.insert_str(q + 1 + k, &bad);
            (i, "invalid escape")
        }
        5 => {
            let i = *s.pick(&strs);
            let l = &mut r.lines[i];
            let (_, e) = l.quotes.unwrap();
            l.text.insert(e, '\\');
            (i, "dangling escape")
        }
        6 => {
            let px: Vec<usize> = strs.iter().copied().filter(|i| r.lines[*i].kind == K::Kw && r.lines[*i].field == "msgstr[]").collect();
            if px.is_empty() {
                return Ok(());
            }
            let i = *s.pick(&px);
            let l = &mut r.lines[i];
            let a = l.text.find('[').unwrap();
            let b = l.text.find(']').unwrap();
            let idx = *s.pick(&[
                "x", "", "-1", "1e9", "0x1", "1.0", " ", "é", "one", "1 2", "1000000", "99999999", "4294967295", "4294967296", "9223372036854775807",
                "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "N", "i",
            ]);
            let idx = match s.us(3) {
                0 => idx.to_string(),
                // a number with something that does not belong to it
                k => {
                    let junk: &[&str] = &["x", "th", "-", ".", "_", ",", "é", "٣", "３", "²", "a", "Z", "#", "/", "'", "\\n", "[0", "0x", "e1"];
                    let j = *s.pick(junk);
                    let n = s.us(12);
                    if k == 1 {
                        format!("{n}{j}")
                    } else {
                        format!("{j}{n}")
                    }
                }
            };
            l.text.replace_range(a + 1..b, &idx);
            (i, "bad plural index")
        }
        7 => {
            // a keyword line that may not follow what precedes it
            let kws: Vec<usize> = strs.iter().copied().filter(|i| r.lines[*i].kind == K::Kw).collect();
            if kws.is_empty() {
                return Ok(());
            }
            let i = *s.pick(&kws);
            // insert after the last physical line of this string
            let mut j = i + 1;
            while j < r.lines.len() && (matches!(r.lines[j].kind, K::Cont) || (r.lines[j].kind == K::Blank && r.lines.get(j + 1).is_some_and(|l| l.kind == K::Cont))) {
                j += 1;
            }
            let l = r.lines[i].clone();
            let bad: &[&str] = match l.field {
                "msgctxt" => &["msgctxt", "msgstr", "msgid_plural", "msgstr[0]"],
                "msgid" => &["msgid", "msgctxt"],
                "msgid_plural" => &["msgid", "msgid_plural", "msgctxt"],
                "msgstr" => &["msgstr", "msgid_plural", "msgstr[0]", "msgstr[1]"],
                _ => &["msgstr", "msgid_plural"],
            };
            let kw = *s.pick(bad);
            let mark = if l.obsolete { "#~ " } else { "" };
            let q = if s.chance(1, 2) { "dup" } else { "" };
            r.lines.insert(
                j,
                doc::PLine { text: format!("{mark}{kw} \"{q}\""), kind: K::Kw, field: "", entry: 0, quotes: None, obsolete: l.obsolete },
            );
            (j, "keyword out of order")
        }
        8 => {
            // continuation with nothing to continue
            let mut ok: Vec<usize> = vec![0];
            for (i, l) in r.lines.iter().enumerate() {
                if matches!(l.kind, K::Header | K::Tc | K::Gc | K::Oc | K::Fl) {
                    ok.push(i + 1);
                }
            }
            let j = *s.pick(&ok);
            let mark = if s.chance(1, 6) { "#~ " } else { "" };
            let q = *s.pick(&["stray", "", "a: b\\n"]);
            r.lines.insert(j, doc::PLine { text: format!("{mark}\"{q}\""), kind: K::Cont, field: "", entry: 0, quotes: None, obsolete: false });
            (j, "orphan continuation")
        }
        9 => {
            // a line that is no PO construct at all
            let j = s.us(r.lines.len() + 1);
            let t = *s.pick(&["foo \"bar\"", "hello world", "<<<<<<< HEAD", "=======", "msgid", "msgstr", "msgstr[0]", "123", "é \"x\"", "'msgid' 'x'", "msgid=\"x\"", "\u{201c}x\u{201d}"]);
            r.lines.insert(j, doc::PLine { text: t.to_string(), kind: K::Kw, field: "", entry: 0, quotes: None, obsolete: false });
            (j, "unknown keyword")
        }
        _ => {
            // invalid UTF-8 on some line
            if r.lines.is_empty() {
                return Ok(());
            }
            let i = s.us(r.lines.len());
            let bad: &[u8] = *s.pick(&[&[0xffu8][..], &[0xc3, 0x28], &[0xe9], &[0xf0, 0x9f, 0x98], &[0x80], &[0xed, 0xa0, 0x80], &[0xc0, 0xaf], &[0xf5, 0x80, 0x80, 0x80]]);
            let l = &r.lines[i];
            let cuts: Vec<usize> = l.text.char_indices().map(|(k, _)| k).chain([l.text.len()]).collect();
            let k = *s.pick(&cuts);
            let mut v = vec![];
            if r.bom {
                v.extend("\u{feff}".as_bytes());
            }
            for (j, l) in r.lines.iter().enumerate() {
                if j > 0 {
                    v.extend(r.eol.as_bytes());
                }
                if j == i {
                    v.extend(&l.text.as_bytes()[..k]);
                    v.extend(bad);
                    v.extend(&l.text.as_bytes()[k..]);
                } else {
                    v.extend(l.text.as_bytes());
                }
            }
            if r.final_nl {
                v.extend(r.eol.as_bytes());
            }
            bytes = Some(v);
            (i, "not UTF-8")
        }
    };
    let t = r.text();
    let b = bytes.clone().unwrap_or_else(|| t.clone().into_bytes());
    let route = if bytes.is_some() { 1 + s.us(2) } else { s.us(4) };
    let path = c.spell(s, "dmg.po");
    let res = match route {
        1 => {
            if std::fs::write(&path, &b).is_err() {
                return Ok(());
            }
            call("reading a damaged file", || pofile(path.as_str()))?
        }
        2 => {
            let b = b.clone();
            call("reading damaged bytes", || pofile(b))?
        }
        _ => call("reading damaged text", || pofile(t.as_str()))?,
    };
    c.nontrivial(&b, || format!("{what} on line {}: {}", at + 1, String::from_utf8_lossy(&b)));
    c.ev(&format!("damage: {what}"));
    let shown = short(&String::from_utf8_lossy(&b));
    match res {
        Ok(_) => viol(format!("{what} on line {} accepted silently: {:?}; text {shown}", at + 1, r.lines.get(at).map(|l| &l.text))),
        Err(e) => {
            if let Some(l) = err_line(&e) {
                ensure!(l == at + 1, "{what} on line {} reported on line {l}: {e}; text {shown}", at + 1);
                c.ev("error_lines_checked");
            }
            if route == 1 {
                ensure!(e.to_string().contains(&path), "error for a file does not name it: {e}");
                c.ev("file_names_checked");
            }
            Ok(())
        }
    }
}

// ---- P07 ----

#[derive(Debug, PartialEq)]
enum Seen {
    Ok(Vec<eq::Po>, Option<String>, std::collections::BTreeMap<String, String>, bool),
    Err(&'static str, Option<usize>),
}

fn seen(r: &Result<POFile, SyntaxError>) -> Seen {
    match r {
        Ok(f) => Seen::Ok(eq::pos(&f.entries), f.header.clone(), f.metadata.clone().into_iter().collect(), f.metadata_is_fuzzy),
        Err(e) => {
            let k = match e {
                SyntaxError::UnescapedDoubleQuoteFound { .. } => "unescaped quote",
                SyntaxError::Custom { .. } => "custom",
                SyntaxError::BasicCustom { .. } => "basic",
                SyntaxError::Generic { .. } => "generic",
                SyntaxError::UnknownState { .. } => "state",
            };
            Seen::Err(k, err_line(e))
        }
    }
}

pub fn p07(s: &mut Src, c: &mut Ctx) -> Outcome {
    if s.chance(1, 3) {
        return super::mo::p07_mo(s, c);
    }
    let hostile = s.chance(1, 2);
    let mut b = any_po_bytes(s, hostile);
    // seldom, a file of more than a mebibyte
    if s.chance(1, 20_000) {
        let size = *s.pick(&[1usize << 20, 1 << 21, 1_000_000, 3_000_000]);
        let mut i = 0;
        while b.len() < size + 100 {
            b.extend(format!("\n\nmsgid \"message {i}\"\nmsgstr \"{}\"\n", "word ".repeat(i % 40)).into_bytes());
            i += 1;
        }
        c.ev("contents_over_a_megabyte");
    }
    let w = gen::wrapwidth(s);
    let path = c.spell(s, "p07.po");
    if std::fs::write(&path, &b).is_err() {
        return Ok(());
    }
    c.nontrivial(&b, || String::from_utf8_lossy(&b).into_owned());
    let text = String::from_utf8(b.clone()).ok();
    // the content itself must not name a file
    if let Some(t) = &text {
        if std::path::Path::new(t).exists() {
            return Ok(());
        }
    }
    let mut rs: Vec<(&str, Result<POFile, SyntaxError>, Option<usize>)> = vec![];
    let tolerate = |r: Result<Result<POFile, SyntaxError>, String>| r;
    macro_rules! go {
        ($n:expr, $w:expr, $e:expr) => {
            match tolerate(lib(|| $e)) {
                Ok(r) => rs.push(($n, r, $w)),
                Err(p) => {
                    return viol(format!("reading via {} panicked: {p}; content {}", $n, short(&String::from_utf8_lossy(&b))));
                }
            }
        };
    }
    go!("path", Some(78), pofile(path.as_str()));
    go!("path and width", Some(w), pofile((path.as_str(), w)));
    go!("Path", Some(78), pofile(std::path::Path::new(&path)));
    go!("bytes", Some(78), pofile(b.clone()));
    go!("bytes and width", Some(w), pofile((b.clone(), w)));
    let ob = FileOptions { path_or_content: String::new(), wrapwidth: w, byte_content: Some(b.clone()) };
    go!("borrowed options with bytes", Some(w), pofile(&ob));
    go!("options with bytes", Some(w), pofile(ob.clone()));
    let op = FileOptions { path_or_content: path.clone(), wrapwidth: w, byte_content: None };
    go!("borrowed options with path", Some(w), pofile(&op));
    go!("options with path", Some(w), pofile(op));
    if let Some(t) = &text {
        go!("string", Some(78), pofile(t.as_str()));
        go!("string and width", Some(w), pofile((t.as_str(), w)));
        let o = FileOptions { path_or_content: t.clone(), wrapwidth: w, byte_content: None };
        go!("borrowed options with string", Some(w), pofile(&o));
        go!("options with string", Some(w), pofile(o));
    } else {
        c.ev("contents_not_utf8");
    }
    let first = seen(&rs[0].1);
    c.ev(if rs[0].1.is_ok() { "accepted_everywhere" } else { "rejected_everywhere" });
    for (n, r, w) in &rs {
        let x = seen(r);
        ensure!(x == first, "read via {n} gives {x:?}, via path {first:?}; content {}", short(&String::from_utf8_lossy(&b)));
        if let (Ok(f), Some(w)) = (r, w) {
            ensure!(f.options.wrapwidth == *w, "wrap width {w} given via {n} became {}", f.options.wrapwidth);
        }
    }
    c.evn("routes_compared", rs.len() as u64);
    // conversions that read and unwrap
    if rs[0].1.is_ok() {
        let g = call("POFile::from(&Path)", || POFile::from(std::path::Path::new(&path)))?;
        let x = seen(&Ok(g));
        ensure!(x == first, "POFile::from(&Path) gives {x:?}, pofile {first:?}");
    }
    Ok(())
}


// ---- P08 ----

pub fn p08(s: &mut Src, c: &mut Ctx) -> Outcome {
    let t = gen::text(s, FREE);
    let e = call("escaping", || escape(&t).into_owned())?;
    if t != e || t.contains('\\') {
        c.nontrivial(&t, || t.clone());
    }
    match call("unescaping", || unescape(&e).map(|x| x.into_owned()))? {
        Ok(u) => ensure!(u == t, "{t:?} escapes to {e:?}, which unescapes to {u:?}"),
        Err(x) => return viol(format!("{t:?} escapes to {e:?}, which is rejected: {x}")),
    }
    // shape of the escaped form
    let mut it = e.chars();
    while let Some(ch) = it.next() {
        ensure!(!matches!(ch, '\n' | '\r' | '\t' | '\u{8}' | '"'), "escaped form {e:?} of {t:?} contains a bare {ch:?}");
        if ch == '\\' {
            let n = it.next();
            ensure!(
                matches!(n, Some('"' | 'n' | 'r' | 't' | 'b' | 'v' | 'f' | '\\')),
                "escaped form {e:?} of {t:?} has an unknown escape {n:?}"
            );
        }
    }
    // arbitrary, mostly ill-formed, escaped text
    let n = s.range(0, 12);
    let mut x = String::new();
    for _ in 0..n {
        match s.us(5) {
            0 => x.push('\\'),
            1 => {
                x.push('\\');
                x.push(*s.pick(&['"', 'n', 'r', 't', 'b', 'v', 'f', '\\']));
            }
            2 => x.push(*s.pick(&['a', 'n', 't', 'q', '"', ' ', 'é', '中', '0', 'N', '\n', '\0', '😀'])),
            3 => x.push_str(&gen::text(s, T { nul: true, eot: true, nl: true, max: 12 })),
            _ => {
                x.push('\\');
                x.push(*s.pick(&['q', '0', 'x', 'u', 'é', 'N', 'T', ' ', '\n', '\'', 'a', 'e', '中', '\u{0}', '😀']));
            }
        }
    }
    // reference decoder
    let mut want: Result<String, Option<char>> = Ok(String::new());
    let mut it = x.chars();
    while let Some(ch) = it.next() {
        if ch != '\\' {
            want.as_mut().unwrap().push(ch);
            continue;
        }
        match it.next() {
            None => {
                want = Err(None);
                break;
            }
            Some('"') => want.as_mut().unwrap().push('"'),
            Some('\\') => want.as_mut().unwrap().push('\\'),
            Some('n') => want.as_mut().unwrap().push('\n'),
            Some('r') => want.as_mut().unwrap().push('\r'),
            Some('t') => want.as_mut().unwrap().push('\t'),
            Some('b') => want.as_mut().unwrap().push('\u{8}'),
            Some(k @ ('v' | 'f')) => {
                // the character these stand for is the library's choice, as
                // long as it is one character that escapes back to them
                let one = call("unescaping", || unescape(&format!("\\{k}")).map(|x| x.into_owned()))?;
                match one {
                    Ok(o) if o.chars().count() == 1 => {
                        let back = call("escaping", || escape(&o).into_owned())?;
                        ensure!(back == format!("\\{k}"), "\\{k} unescapes to {o:?}, which escapes to {back:?}");
                        want.as_mut().unwrap().push_str(&o)
                    }
                    o => return viol(format!("\\{k} unescapes to {o:?}")),
                }
            }
            Some(k) => {
                want = Err(Some(k));
                break;
            }
        }
    }
    let got = call("unescaping", || unescape(&x).map(|x| x.into_owned()))?;
    if x.contains('\\') {
        c.nontrivial(&x, || x.clone());
    }
    match (&want, &got) {
        (Ok(a), Ok(b)) => {
            c.ev("decoded");
            ensure!(a == b, "{x:?} unescapes to {b:?}, expected {a:?}")
        }
        (Err(None), Err(EscapingError::EscapeAtEndOfString { .. })) => c.ev("dangling_reported"),
        (Err(Some(k)), Err(EscapingError::InvalidEscapedCharacter { character, .. })) => {
            c.ev("invalid_reported");
            ensure!(k == character, "{x:?}: error names {character:?}, the offending character is {k:?}")
        }
        _ => return viol(format!("{x:?} unescapes to {got:?}, expected {want:?}")),
    }
    Ok(())
}

// ---- P09 ----

struct Field {
    prefix: &'static str,
    kw: String,
    value: String,
}

/// Check the rendering of a sequence of string fields.
fn check_fields(lines: &[&str], fields: &[Field], w: usize, c: &mut Ctx) -> Result<usize, Viol> {
    let mut i = 0;
    for f in fields {
        let esc = escape(&f.value).into_owned();
        let head = format!("{}{} \"", f.prefix, f.kw);
        let l = lines.get(i).copied().unwrap_or("<end>");
        ensure!(l.starts_with(&head) && l.ends_with('"') && l.len() > head.len(), "line {l:?} where {} {:?} was expected at width {w}", f.kw, f.value);
        let first = &l[head.len()..l.len() - 1];
        i += 1;
        let cont_head = format!("{}\"", f.prefix);
        let mut pieces: Vec<&str> = vec![];
        while let Some(l) = lines.get(i) {
            if l.starts_with(&cont_head) && l.ends_with('"') && l.len() > cont_head.len() {
                pieces.push(&l[cont_head.len()..l.len() - 1]);
                i += 1;
            } else {
                break;
            }
        }
        // the keyword is the field name; whether a plural index counts is
        // left open
        let base = f.kw.split('[').next().unwrap();
        let lo = esc.width().min(cw(&esc)) + base.len() + 1;
        let hi = esc.width().max(cw(&esc)) + f.kw.len() + 1;
        if lo.abs_diff(w) <= 2 {
            c.ev("strings_within_2_columns_of_limit");
        }
        if pieces.is_empty() {
            ensure!(first == esc, "{} {:?} rendered as {first:?}, expected {esc:?}", f.kw, f.value);
            ensure!(lo <= w, "{} {:?} kept on one line at width {w}, needs {lo}", f.kw, f.value);
            c.ev("strings_on_one_line");
            continue;
        }
        c.ev("strings_wrapped");
        ensure!(hi > w, "{} {:?} split at width {w} although it needs only {hi}: {first:?} {pieces:?}", f.kw, f.value);
        ensure!(first.is_empty(), "{} {:?} split at width {w} but its keyword line holds {first:?}", f.kw, f.value);
        let joined: String = pieces.concat();
        ensure!(joined == esc, "pieces {pieces:?} of {:?} at width {w} do not join to {esc:?}", f.value);
        // cut points
        let brk: std::collections::HashSet<usize> = unicode_linebreak::linebreaks(&esc).map(|(o, _)| o).collect();
        let mut inside = vec![false; esc.len() + 1];
        let mut it = esc.char_indices().peekable();
        while let Some((_, ch)) = it.next() {
            if ch == '\\' {
                if let Some((o, _)) = it.next() {
                    inside[o] = true;
                }
            }
        }
        let mut pos = 0;
        for (k, p) in pieces.iter().enumerate() {
            let end = pos + p.len();
            if k + 1 < pieces.len() {
                ensure!(!inside[end], "escape cut in two at width {w}: {pieces:?} of {:?}", f.value);
                ensure!(brk.contains(&end), "cut where no line break is allowed at width {w}: {pieces:?} of {:?}", f.value);
                c.ev("cuts_checked");
            }
            let pw = p.width().min(cw(p));
            if pw > w {
                let opp = (pos + 1..end).find(|o| brk.contains(o) && !inside[*o]);
                ensure!(opp.is_none(), "piece {p:?} is {pw} wide at width {w} and could be cut at {:?}: {pieces:?}", &p[..opp.unwrap() - pos]);
                c.ev("over_wide_unbreakable_pieces");
            }
            if k + 1 < pieces.len() {
                // a line is not ended while the text up to the next place
                // to cut still fits well
                let next = (end + 1..=esc.len()).find(|o| brk.contains(o) && (*o == esc.len() || !inside[*o])).unwrap_or(esc.len());
                let up_to = &esc[pos..next];
                let uw = up_to.width().max(cw(up_to));
                ensure!(uw.saturating_add(2) > w, "line ended after {p:?} although {up_to:?} is only {uw} wide at width {w}: {pieces:?}");
                c.ev("line_ends_checked");
            }
            pos = end;
        }
    }
    Ok(i)
}

fn fields_of(e: &POEntry, prev: bool) -> Vec<Field> {
    let mut v = vec![];
    let p = if e.obsolete { "#~| " } else { "#| " };
    if prev {
        for (k, x) in [("msgctxt", &e.previous_msgctxt), ("msgid", &e.previous_msgid), ("msgid_plural", &e.previous_msgid_plural)] {
            if let Some(x) = x {
                v.push(Field { prefix: p, kw: k.into(), value: x.clone() });
            }
        }
    }
    let p = if e.obsolete { "#~ " } else { "" };
    if let Some(x) = &e.msgctxt {
        v.push(Field { prefix: p, kw: "msgctxt".into(), value: x.clone() });
    }
    v.push(Field { prefix: p, kw: "msgid".into(), value: e.msgid.clone() });
    if let Some(x) = &e.msgid_plural {
        v.push(Field { prefix: p, kw: "msgid_plural".into(), value: x.clone() });
    }
    if e.msgstr_plural.is_empty() {
        v.push(Field { prefix: p, kw: "msgstr".into(), value: e.msgstr.clone().unwrap_or_default() });
    } else {
        for (i, x) in e.msgstr_plural.iter().enumerate() {
            v.push(Field { prefix: p, kw: format!("msgstr[{i}]"), value: x.clone() });
        }
    }
    v
}

pub fn p09(s: &mut Src, c: &mut Ctx) -> Outcome {
    let w = gen::wrapwidth(s);
    let o = EntryOpts { key: FREE, val: FREE, annotations: false, width: w };
    let mut e = gen::po_entry(s, &o);
    e.flags.clear();
    if s.chance(1, 3) {
        e.previous_msgctxt = opt_near(s, w);
        e.previous_msgid = opt_near(s, w);
        e.previous_msgid_plural = opt_near(s, w);
    }
    let before = c.counters.get("strings_wrapped").copied().unwrap_or(0) + c.counters.get("strings_within_2_columns_of_limit").copied().unwrap_or(0);
    let t = call("rendering an entry", || e.to_string_with_wrapwidth(w))?;
    let tail = |v: Viol| Viol { msg: format!("{}; text {}", v.msg, short(&t)), known: v.known };
    let lines: Vec<&str> = t.strip_suffix('\n').unwrap_or(&t).split('\n').collect();
    let fs = fields_of(&e, true);
    let n = check_fields(&lines, &fs, w, c).map_err(tail)?;
    ensure!(n == lines.len(), "extra lines {:?}; text {}", &lines[n..], short(&t));
    let after = c.counters.get("strings_wrapped").copied().unwrap_or(0) + c.counters.get("strings_within_2_columns_of_limit").copied().unwrap_or(0);
    if after > before {
        c.nontrivial(&t, || t.clone());
    }
    // the whole file uses the width it was opened with
    match s.us(4) {
        0 => {
            let t = match s.us(3) {
                0 => {
                    let mut f = POFile::new(("", w).into());
                    f.entries.push(e.clone());
                    call("rendering a file", || f.to_string())?
                }
                1 => {
                    let mut f = match call("reading", || pofile(("#\nmsgid \"\"\nmsgstr \"\"\n", w)))? {
                        Ok(f) => f,
                        Err(x) => return viol(format!("trivial file rejected: {x}")),
                    };
                    f.entries.push(e.clone());
                    call("rendering a file", || f.to_string())?
                }
                _ => {
                    let mut m = MOFile::new(("", w).into());
                    m.entries.push(MOEntry::from(&e));
                    e.obsolete = false;
                    e.previous_msgctxt = None;
                    e.previous_msgid = None;
                    e.previous_msgid_plural = None;
                    call("rendering a file", || m.to_string())?
                }
            };
            let lines: Vec<&str> = t.strip_suffix('\n').unwrap_or(&t).split('\n').collect();
            let at = lines.iter().position(|l| l.is_empty()).map(|i| i + 1).unwrap_or(lines.len());
            let fs = fields_of(&e, true);
            check_fields(&lines[at..], &fs, w, c).map_err(|v| Viol { msg: format!("in a file of width {w}: {}; text {}", v.msg, short(&t)), known: v.known })?;
            c.ev("files_checked");
        }
        1 => {
            let m = MOEntry::from(&e);
            let t = call("rendering an MO entry", || m.to_string_with_wrapwidth(w))?;
            let lines: Vec<&str> = t.strip_suffix('\n').unwrap_or(&t).split('\n').collect();
            e.obsolete = false;
            let fs = fields_of(&e, false);
            check_fields(&lines, &fs, w, c).map_err(|v| Viol { msg: format!("MO entry: {}; text {}", v.msg, short(&t)), known: v.known })?;
            c.ev("mo_entries_checked");
        }
        2 => {
            // the default width is 78
            let t = call("rendering an entry", || e.to_string())?;
            let lines: Vec<&str> = t.strip_suffix('\n').unwrap_or(&t).split('\n').collect();
            let fs = fields_of(&e, true);
            check_fields(&lines, &fs, 78, c).map_err(|v| Viol { msg: format!("default width: {}; text {}", v.msg, short(&t)), known: v.known })?;
        }
        _ => {}
    }
    Ok(())
}

fn opt_near(s: &mut Src, w: usize) -> Option<String> {
    if s.chance(1, 2) {
        Some(gen::text_near(s, FREE, w))
    } else {
        None
    }
}
