//! Text assembly, folding of annotations, error texts and entry
//! conversions: P10, P11, E02, Q05.

use super::po::{any_po_bytes, cw, err_line, short};
use super::sys::catalogue;
use super::Prop;
use crate::ensure;
use crate::eq::{self, Same};
use crate::gen::{self, EntryOpts, FREE, STR};
use crate::momodel as mm;
use crate::mon::{call, viol, Ctx, Outcome};
use crate::src::Src;
use rspolib::errors::{EscapingError, IOError, SyntaxError};
use rspolib::escaping::{escape, unescape};
use rspolib::{
    mo_metadata_entry_to_string, mofile, po_metadata_entry_to_string, pofile, FileOptions, MOEntry, MOFile, Merge, MsgidEotMsgctxt, POEntry, POFile,
    TranslatedEntry,
};
use std::collections::HashMap;
use unicode_width::UnicodeWidthStr;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P10", f: p10, rule: "catalogue with at least two entries was rendered and taken apart; distinct by text", quick: 320_000, thorough: 2_800_000 },
        Prop { id: "P11", f: p11, rule: "entry with an annotation that was folded or was within two columns of the width; distinct by text", quick: 1_200_000, thorough: 8_400_000 },
        Prop { id: "E02", f: e02, rule: "input rejected by a reader or by unescaping, whose error text was examined; distinct by input", quick: 1_200_000, thorough: 8_400_000 },
        Prop { id: "Q05", f: q05, rule: "pair of entries converted, merged and collected into files; distinct by entries", quick: 2_000_000, thorough: 14_000_000 },
    ]
}

// ---------------------------------------------------------------- P10

fn first_difference(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |t: &str| {
        let mut i = k.saturating_sub(60).min(t.len());
        while !t.is_char_boundary(i) {
            i -= 1;
        }
        t[i..].chars().take(160).collect::<String>()
    };
    format!("got …{:?}, expected …{:?}", cut(a), cut(b))
}

/// `text` is the metadata entry of `meta`, possibly marked fuzzy.
fn metadata_block(text: &str, meta: &HashMap<String, String>, fuzzy: bool) -> Result<(), String> {
    let rest = if fuzzy {
        text.strip_prefix("#, fuzzy\n").ok_or("the fuzzy mark is missing")?
    } else {
        text
    };
    let rest = rest.strip_prefix("msgid \"\"\nmsgstr \"\"\n").ok_or("does not start with an empty id and an empty first line")?;
    let mut got: Vec<&str> = rest.split_terminator('\n').collect();
    if !rest.is_empty() && !rest.ends_with('\n') {
        return Err("last line has no end".into());
    }
    let mut want: Vec<String> = meta.iter().map(|(k, v)| format!("\"{}\\n\"", escape(&format!("{k}: {v}")))).collect();
    got.sort_unstable();
    want.sort_unstable();
    if got != want {
        return Err(format!("lines {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn p10(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut f = catalogue(s);
    gen::loose(s, &mut f);
    let w = f.options.wrapwidth;
    let t = call("rendering", || f.to_string())?;
    if f.entries.len() >= 2 {
        c.nontrivial(&t, || short(&t));
    }
    // header
    let mut want = String::new();
    match f.header.as_deref().map(|h| h.trim_end_matches('\n')) {
        Some(h) if !h.is_empty() => {
            for l in h.split('\n') {
                let l = l.strip_suffix('\r').unwrap_or(l);
                want.push('#');
                if !l.is_empty() {
                    want.push(' ');
                    want.push_str(l);
                }
                want.push('\n');
            }
        }
        _ => want.push_str("#\n"),
    }
    let rest = match t.strip_prefix(&want) {
        Some(r) => r,
        None => return viol(format!("the text does not start with the header {:?}: {}", f.header, first_difference(&t, &want))),
    };
    // metadata, then active and obsolete entries as they render themselves
    let meta = call("metadata_as_entry", || f.metadata_as_entry())?;
    let block = call("rendering metadata", || po_metadata_entry_to_string(&meta, f.metadata_is_fuzzy))?;
    if let Err(e) = metadata_block(&block, &f.metadata, f.metadata_is_fuzzy) {
        return viol(format!("metadata {:?} rendered as {block:?}: {e}", f.metadata));
    }
    let mut want = block;
    for obsolete in [false, true] {
        for e in f.entries.iter().filter(|e| e.obsolete == obsolete) {
            want.push('\n');
            want.push_str(&call("rendering an entry", || e.to_string_with_wrapwidth(w))?);
        }
    }
    ensure!(rest == want, "the text of the file is not made of the texts of its parts (width {w}): {}", first_difference(rest, &want));
    ensure!(t.ends_with('\n') && !t.ends_with("\n\n"), "text ends in {:?}", &t[t.len().saturating_sub(3)..]);
    c.evn("entries_assembled", f.entries.len() as u64);
    // the metadata as an entry
    ensure!(meta.msgid.is_empty() && meta.msgctxt.is_none() && meta.msgid_plural.is_none() && meta.msgstr_plural.is_empty() && !meta.obsolete, "metadata as an entry is {meta:?}");
    ensure!(meta.flags.iter().any(|x| x == "fuzzy") == f.metadata_is_fuzzy, "metadata marked {} has the flags {:?}", f.metadata_is_fuzzy, meta.flags);
    let pairs = |m: &Option<String>| {
        let mut v: Vec<String> = m.as_deref().map(|t| t.split('\n').map(|x| x.to_string()).collect()).unwrap_or_default();
        v.sort();
        v
    };
    let mut wp: Vec<String> = f.metadata.iter().map(|(k, v)| format!("{k}: {v}")).collect();
    wp.sort();
    ensure!(pairs(&meta.msgstr) == wp, "metadata {:?} as an entry is {:?}", f.metadata, meta.msgstr);
    // entries on their own
    for e in f.entries.iter().take(4) {
        let a = call("rendering an entry", || e.to_string())?;
        let b = call("rendering an entry", || e.to_string_with_wrapwidth(78))?;
        ensure!(a == b, "an entry alone is rendered as {a:?}, at width 78 as {b:?}");
    }
    // the same for MO catalogues
    let mut m = MOFile::new(("", w).into());
    m.metadata = f.metadata.clone();
    m.entries = f.entries.iter().map(|e| MOEntry::new(e.msgid.clone(), e.msgstr.clone(), e.msgid_plural.clone(), e.msgstr_plural.clone(), e.msgctxt.clone())).collect();
    let t = call("rendering", || m.to_string())?;
    let me = call("metadata_as_entry", || m.metadata_as_entry())?;
    let block = call("rendering metadata", || mo_metadata_entry_to_string(&me))?;
    if let Err(e) = metadata_block(&block, &m.metadata, false) {
        return viol(format!("MO metadata {:?} rendered as {block:?}: {e}", f.metadata));
    }
    ensure!(pairs(&me.msgstr) == wp && me.msgid.is_empty(), "MO metadata {:?} as an entry is {me:?}", f.metadata);
    let mut want = format!("#\n{block}");
    for e in &m.entries {
        want.push('\n');
        want.push_str(&call("rendering an entry", || e.to_string_with_wrapwidth(w))?);
    }
    ensure!(t == want, "the text of the MO catalogue is not made of the texts of its parts: {}", first_difference(&t, &want));
    if let Some(e) = m.entries.first() {
        let a = call("rendering an entry", || e.to_string())?;
        let b = call("rendering an entry", || e.to_string_with_wrapwidth(78))?;
        ensure!(a == b, "an MO entry alone is rendered as {a:?}, at width 78 as {b:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- E02

/// Numbers standing on their own in a text.
fn has_number(t: &str, n: usize) -> bool {
    t.split(|c: char| !c.is_ascii_digit()).any(|x| x == n.to_string())
}

pub fn e02(s: &mut Src, c: &mut Ctx) -> Outcome {
    match s.weighted(&[4, 2, 3]) {
        0 => e02_po(s, c),
        1 => e02_mo(s, c),
        _ => e02_escaping(s, c),
    }
}

/// Where the first unescaped quote inside the string of a line is, counting
/// characters from one; only for lines without indentation, obsolete mark or
/// extra blanks.
fn stray_quote(l: &str) -> Option<usize> {
    let head = match l.find('"') {
        Some(k) => &l[..k],
        None => return None,
    };
    let word = head.strip_prefix("#| ").unwrap_or(head);
    let plain = match word.strip_suffix(' ') {
        None => head.is_empty(),
        Some("msgid" | "msgid_plural" | "msgctxt") => true,
        Some("msgstr") => word == head,
        Some(x) => word == head && x.strip_prefix("msgstr[").and_then(|x| x.strip_suffix(']')).is_some_and(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit())),
    };
    if !plain {
        return None;
    }
    let mut esc = false;
    for (i, ch) in l.chars().enumerate().skip(head.chars().count() + 1) {
        if ch == '"' && !esc {
            return Some(i + 1);
        }
        esc = ch == '\\' && !esc;
    }
    None
}

fn e02_po(s: &mut Src, c: &mut Ctx) -> Outcome {
    let b = any_po_bytes(s, true);
    let name = *s.pick(&["e02.po", "e02 é.po", "e02 \"q\".po", "e02-12.po", "e02", "..e02.po", "e02.PO", " e02 .po "]);
    let path = c.spell(s, name);
    if std::fs::write(&path, &b).is_err() {
        return Ok(());
    }
    let text = String::from_utf8(b.clone()).ok();
    if text.as_ref().is_some_and(|t| std::path::Path::new(t).exists()) {
        return Ok(());
    }
    let describe = |e: &SyntaxError| -> (Vec<usize>, Vec<String>) {
        match e {
            SyntaxError::UnescapedDoubleQuoteFound { line, index, .. } => (vec![*line, *index], vec![]),
            SyntaxError::Custom { line, index, message, .. } => (vec![*line, *index], vec![message.clone()]),
            SyntaxError::Generic { line, index, .. } => (vec![*line, *index], vec![]),
            SyntaxError::BasicCustom { message, .. } => (vec![], vec![message.clone()]),
            SyntaxError::UnknownState { state } => (vec![], vec![state.clone()]),
        }
    };
    let examine = |e: &SyntaxError, how: &str, file: Option<&str>| -> Result<String, crate::mon::Viol> {
        let t = call("showing an error", || e.to_string())?;
        let bare = match file {
            Some(p) => {
                ensure!(t.contains(p), "the error for the file {p:?} does not name it: {t:?}");
                t.replace(p, "")
            }
            None => t.clone(),
        };
        let (nums, texts) = describe(e);
        for n in nums {
            ensure!(has_number(&bare, n), "the error text {t:?} ({how}) does not show {n} of {e:?}");
        }
        for m in texts {
            ensure!(!m.is_empty() && bare.contains(&m), "the error text {t:?} ({how}) does not show {m:?}");
        }
        Ok(bare)
    };
    let from_bytes = match call("reading bytes", || pofile(b.clone()))? {
        Ok(_) => {
            c.ev("po_inputs_accepted");
            return Ok(());
        }
        Err(e) => e,
    };
    c.nontrivial(&b, || format!("{from_bytes}: {}", short(&String::from_utf8_lossy(&b))));
    c.ev("po_errors");
    if let (SyntaxError::UnescapedDoubleQuoteFound { line, index, .. }, Some(t)) = (&from_bytes, &text) {
        if let Some(col) = t.split('\n').nth(line.wrapping_sub(1)).and_then(|l| stray_quote(l.strip_suffix('\r').unwrap_or(l))) {
            ensure!(*index == col, "the stray quote in line {line} is character {col}, the error is {from_bytes:?}; text {}", short(t));
            c.ev("stray_quotes_located");
        }
    }
    let shown = examine(&from_bytes, "bytes", None)?;
    if let Err(e) = call("reading a file", || pofile(path.as_str()))? {
        examine(&e, "path", Some(&path))?;
        c.ev("file_errors");
    }
    if let Some(t) = &text {
        if let Err(e) = call("reading text", || pofile(t.as_str()))? {
            let x = examine(&e, "text", None)?;
            if err_line(&e) == err_line(&from_bytes) && describe(&e) == describe(&from_bytes) {
                ensure!(x == shown, "the same error reads {x:?} for text and {shown:?} for bytes");
            }
            c.ev("text_errors");
        }
    }
    Ok(())
}

fn e02_mo(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut items: Vec<(Vec<u8>, Vec<u8>)> = gen::mo_entries(s).iter().map(|e| (mm::key_bytes(e), mm::val_bytes(e))).collect();
    items.truncate(6);
    if s.chance(1, 8) {
        let n = s.range(1, 300);
        items.extend((0..n).map(|i| (format!("k{i}").into_bytes(), b"t".to_vec())));
    }
    items.sort();
    let be = s.chance(1, 2);
    let mut b = mm::write_img(s, &items, be, 0);
    // cut inside one of the tables
    if s.chance(1, 6) {
        let word = |b: &[u8], at: usize| -> usize {
            let v: [u8; 4] = b[at..at + 4].try_into().unwrap();
            (if be { u32::from_be_bytes(v) } else { u32::from_le_bytes(v) }) as usize
        };
        let (o, t) = (word(&b, 12), word(&b, 16));
        let (which, at) = if s.chance(1, 2) { ("msgid", o) } else { ("msgstr", t) };
        let i = s.us(items.len().max(1));
        let cut = at + 8 * i + s.us(8);
        // the other table has to be complete if it is needed first
        if i < items.len() && cut < b.len() && (which == "msgid" || o + 8 * items.len() <= cut) {
            let e = match call("reading a cut MO image", || mofile(b[..cut].to_vec()))? {
                Ok(_) => return viol(format!("an image cut inside its {which} table is accepted")),
                Err(e) => e,
            };
            let x = call("showing an error", || e.to_string())?;
            c.nontrivial(&b[..cut].to_vec(), || format!("{x} for an image cut at {cut}"));
            c.ev("cut_tables_located");
            return if x.contains(which) && has_number(&x, i) { Ok(()) } else { viol(format!("the {which} table ends inside its entry {i}, the error is {x:?}")) };
        }
    }
    match s.us(6) {
        0 => b.truncate(s.us(20)),
        1 | 2 => {
            let m: [u8; 4] = std::array::from_fn(|_| s.below(256) as u8);
            b[..4].copy_from_slice(&m);
        }
        3 => {
            let v = match s.us(4) {
                0 => 2,
                1 => u32::MAX,
                2 => s.below(70_000) as u32,
                _ => s.below(1 << 32) as u32,
            };
            b[4..8].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
        }
        4 => {
            let k = s.us(b.len());
            b.truncate(k);
        }
        _ => {
            let k = s.us(b.len().min(80));
            b[k] = b[k].wrapping_add(s.range(1, 255) as u8);
        }
    }
    let e = match call("reading an MO image", || mofile(b.clone()))? {
        Ok(_) => {
            c.ev("mo_inputs_accepted");
            return Ok(());
        }
        Err(e) => e,
    };
    let t = call("showing an error", || e.to_string())?;
    c.nontrivial(&b, || format!("{t} for {} bytes", b.len()));
    c.ev("mo_errors");
    let word = |at: usize| -> Option<[u8; 4]> { b.get(at..at + 4).map(|x| x.try_into().unwrap()) };
    match &e {
        IOError::ErrorReadingMagicNumber {} => ensure!(b.len() < 4, "{t:?} for an image of {} bytes", b.len()),
        IOError::IncorrectMagicNumber { magic_number_le, magic_number_be } => {
            let m = word(0).unwrap_or_default();
            ensure!(
                *magic_number_le == u32::from_le_bytes(m) && *magic_number_be == u32::from_be_bytes(m),
                "image starting with {m:02x?}: {e:?}"
            );
            ensure!(has_number(&t, *magic_number_le as usize) && has_number(&t, *magic_number_be as usize), "the error text {t:?} does not show the numbers of {e:?}");
            c.ev("magic_numbers_shown");
        }
        IOError::UnsupportedMORevisionNumber { version } => {
            let v = word(4).map(|v| if word(0) == Some([0x95, 4, 0x12, 0xde]) { u32::from_be_bytes(v) } else { u32::from_le_bytes(v) });
            ensure!(v == Some(*version), "image of revision {v:?}: {e:?}");
            ensure!(has_number(&t, *version as usize), "the error text {t:?} does not show the revision of {e:?}");
            c.ev("revisions_shown");
        }
        IOError::CorruptedMOData { context } => {
            ensure!(!context.is_empty() && t.contains(context.as_str()), "the error text {t:?} does not show {context:?}");
        }
    }
    Ok(())
}

fn e02_escaping(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut x = String::new();
    let n = s.range(0, 4);
    for _ in 0..n {
        match s.us(3) {
            0 => x.push_str(&escape(&gen::text(s, crate::gen::T { nul: true, eot: true, nl: true, max: 30 }))),
            1 => {
                x.push('\\');
                x.push(*s.pick(&['"', 'n', 'r', 't', 'b', 'v', 'f', '\\']));
            }
            _ => x.push_str(s.pick(&["a", "'", "{}", "é", " ", "中文"])),
        }
    }
    let bad = if s.chance(1, 3) { None } else { Some(*s.pick(&['q', '0', 'x', 'u', 'é', 'N', ' ', '\'', 'a', '中', '😀', '{', '%'])) };
    x.push('\\');
    if let Some(b) = bad {
        x.push(b);
        let tail = s.range(0, 3);
        for _ in 0..tail {
            x.push_str(s.pick(&["a", "\\n", "\\", "\\q", "é", "' found in '"]));
        }
    }
    let e = match call("unescaping", || unescape(&x).map(|t| t.into_owned()))? {
        Ok(t) => return viol(format!("{x:?} unescapes to {t:?}")),
        Err(e) => e,
    };
    let t = call("showing an error", || e.to_string())?;
    c.nontrivial(&x, || format!("{x:?}: {t}"));
    c.ev("escaping_errors");
    let (text, ch) = match &e {
        EscapingError::EscapeAtEndOfString { text } => (text, None),
        EscapingError::InvalidEscapedCharacter { text, character } => (text, Some(*character)),
    };
    ensure!(ch == bad, "{x:?}: offending character {bad:?}, the error is {e:?}");
    ensure!(*text == x, "{x:?}: the error carries the text {text:?}");
    ensure!(t.contains(&x), "{x:?}: the error text {t:?} does not show it");
    if let Some(ch) = ch {
        let rest = t.replacen(&x, "", 1);
        ensure!(rest.contains(ch), "{x:?}: the error text {t:?} does not show {ch:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- P11

/// One line of a comment against the lines it was rendered to. Returns how
/// many of `lines` it took and whether the width mattered.
fn comment_line(line: &str, mark: &str, w: usize, lines: &[&str], c: &mut Ctx) -> Result<(usize, bool), String> {
    let lo = line.width().min(cw(line)).saturating_add(mark.len());
    let hi = line.width().max(cw(line)).saturating_add(mark.len());
    let first = lines.first().copied().unwrap_or("<end>");
    let whole = first.strip_prefix(mark) == Some(line);
    if line.trim().is_empty() || hi <= w {
        return if whole {
            c.ev("comment_lines_kept");
            Ok((1, hi + 2 > w))
        } else {
            Err(format!("comment line {line:?} fits width {w} but is rendered as {first:?}"))
        };
    }
    if lo <= w && whole {
        return Ok((1, true));
    }
    // folded: pieces in order, only blanks lost between them
    let ok: Vec<usize> = unicode_linebreak::linebreaks(line).map(|(o, _)| o).collect();
    let mut pos = 0;
    let mut n = 0;
    while !line[pos..].trim().is_empty() {
        let l = lines.get(n).copied().unwrap_or("<end>");
        let Some(p) = l.strip_prefix(mark) else {
            return Err(format!("line {l:?} where the rest {:?} of a comment was expected at width {w}", &line[pos..]));
        };
        if p.trim().is_empty() {
            return Err(format!("blank line while folding {line:?} at width {w}"));
        }
        let mut at = pos;
        while !line[at..].starts_with(p) {
            match line[at..].chars().next() {
                Some(ch) if ch.is_whitespace() => at += ch.len_utf8(),
                _ => return Err(format!("line {l:?} does not continue the comment {line:?} with {:?} at width {w}", &line[pos..])),
            }
        }
        let end = at + p.len();
        let tail = line[end..].len() - line[end..].trim_start().len();
        let pw = p.width().min(cw(p)).saturating_add(mark.len());
        if pw > w.max(mark.len()) {
            if let Some(o) = ok.iter().find(|o| at < **o && **o < end && !line[..**o].ends_with('\\') && !line[at..**o].trim().is_empty()) {
                return Err(format!("comment line {l:?} is {pw} wide at width {w} and could be cut after {:?}", &line[at..*o]));
            }
            c.ev("unbreakable_comment_pieces");
        }
        if end + tail < line.len() {
            if !ok.iter().any(|o| end <= *o && *o <= end + tail) {
                return Err(format!("comment cut after {p:?} where no line break is allowed: {line:?}"));
            }
            let next = ok.iter().find(|o| **o > end + tail && !line[..**o].ends_with('\\')).copied().unwrap_or(line.len());
            let up_to = &line[at..next];
            let uw = up_to.width().max(cw(up_to)).saturating_add(mark.len());
            if uw.saturating_add(2) <= w {
                return Err(format!("comment line ended after {p:?} although {up_to:?} is only {uw} wide with its mark at width {w}"));
            }
            c.ev("comment_cuts_checked");
        }
        pos = end;
        n += 1;
    }
    c.ev("comment_lines_folded");
    Ok((n, true))
}

fn near_line(s: &mut Src, w: usize) -> String {
    let t = match s.us(3) {
        0 => gen::text(s, gen::LINE),
        1 => gen::text_near(s, gen::LINE, w),
        _ => {
            // words up to a target close to a multiple of the width
            let unit = w.clamp(1, 200);
            let target = (unit * s.range(1, 3) + s.us(6)).saturating_sub(4);
            let mut t = String::new();
            while t.width() < target {
                let n = s.range(1, 9);
                let ch = *s.pick(&['a', 'b', 'é', '中', 'x', '-', '\\', '"', '.']);
                for _ in 0..n {
                    t.push(ch);
                }
                if s.chance(4, 5) {
                    t.push(' ');
                }
            }
            t
        }
    };
    let t: String = t.chars().filter(|c| *c != '\n' && *c != '\r').collect();
    t.trim_end().to_string()
}

fn p11(s: &mut Src, c: &mut Ctx) -> Outcome {
    let w = gen::wrapwidth(s);
    let mut e = POEntry { msgid: "i".into(), msgstr: Some(String::new()), obsolete: s.chance(1, 4), ..Default::default() };
    let some = |s: &mut Src| {
        if s.chance(1, 3) {
            return None;
        }
        let n = [1, 1, 2, 3, 6][s.us(5)];
        Some((0..n).map(|_| near_line(s, w)).collect::<Vec<_>>())
    };
    let tc = some(s);
    let gc = some(s);
    e.tcomment = tc.as_ref().map(|v| v.join("\n"));
    e.comment = gc.as_ref().map(|v| v.join("\n"));
    e.occurrences = gen::occurrences(s);
    if s.chance(1, 3) {
        // references that end close to the width
        let unit = w.clamp(1, 300);
        for _ in 0..s.range(1, 6) {
            let n = (unit / s.range(1, 4) + s.us(7)).saturating_sub(3).max(1);
            let ch = *s.pick(&['r', 'r', '日', 'é']);
            let f: String = std::iter::repeat(ch).take(n / if ch == '日' { 2 } else { 1 } + 1).collect();
            let l = if s.chance(1, 2) { String::new() } else { s.range(1, 999).to_string() };
            e.occurrences.push((f, l));
        }
    }
    e.flags = gen::flags(s);
    let default = s.chance(1, 8);
    let (w, t) = if default {
        (78, call("rendering an entry", || e.to_string())?)
    } else if s.chance(1, 6) {
        let mut f = POFile::new(("", w).into());
        f.entries.push(e.clone());
        let t = call("rendering a file", || f.to_string())?;
        let Some(i) = t.find("\n\n") else { return viol(format!("no blank line after the metadata: {}", short(&t))) };
        c.ev("through_a_file");
        (w, t[i + 2..].to_string())
    } else {
        (w, call("rendering an entry", || e.to_string_with_wrapwidth(w))?)
    };
    let lines: Vec<&str> = t.split_terminator('\n').collect();
    let mut i = 0;
    let mut mattered = false;
    for (mark, v) in [("# ", &tc), ("#. ", &gc)] {
        for l in v.iter().flatten() {
            match comment_line(l, mark, w, &lines[i..], c) {
                Ok((n, m)) => {
                    i += n;
                    mattered |= m;
                }
                Err(x) => return viol(format!("{x}; text {}", short(&t))),
            }
        }
    }
    if !e.obsolete && !e.occurrences.is_empty() {
        let mut k = 0;
        let refs: Vec<String> = e.occurrences.iter().map(|(f, l)| if l.is_empty() { f.clone() } else { format!("{f}:{l}") }).collect();
        while k < refs.len() {
            let l = lines.get(i).copied().unwrap_or("<end>");
            let Some(rest) = l.strip_prefix("#: ") else {
                return viol(format!("line {l:?} where references from {:?} were expected; text {}", refs[k], short(&t)));
            };
            let mut rest = Some(rest);
            let k0 = k;
            let mut have = 2usize;
            while let Some(r) = rest {
                if k == refs.len() {
                    return viol(format!("references {r:?} that the entry does not have; text {}", short(&t)));
                }
                let x = refs[k].as_str();
                rest = match r.strip_prefix(x) {
                    Some("") => None,
                    Some(y) if y.starts_with(' ') => Some(&y[1..]),
                    _ => return viol(format!("line {l:?} holds {r:?} where reference {x:?} was expected; text {}", short(&t))),
                };
                have += 1 + x.width();
                k += 1;
            }
            let lw = l.width();
            ensure!(lw <= w || k == k0 + 1, "reference line {l:?} holds {} references and is {lw} wide at width {w}", k - k0);
            if lw.abs_diff(w) <= 2 {
                c.ev("reference_lines_within_2_columns");
                mattered = true;
            }
            if k < refs.len() {
                let more = have + 1 + refs[k].width();
                ensure!(more > w, "reference line {l:?} ended before {:?} although both take {more} columns at width {w}", refs[k]);
                c.ev("reference_line_ends_checked");
                mattered = true;
            }
            i += 1;
        }
    }
    if !e.flags.is_empty() {
        let want = format!("#, {}", e.flags.join(", "));
        let l = lines.get(i).copied().unwrap_or("<end>");
        ensure!(l == want, "flag line {l:?}, expected {want:?}; text {}", short(&t));
        i += 1;
    }
    let (a, b) = if e.obsolete { ("#~ msgid \"i\"", "#~ msgstr \"\"") } else { ("msgid \"i\"", "msgstr \"\"") };
    if w > 8 {
        ensure!(lines[i..] == [a, b], "after the annotations come {:?}; text {}", &lines[i..], short(&t));
    }
    if mattered {
        c.nontrivial(&t, || t.clone());
    }
    Ok(())
}

// ---------------------------------------------------------------- Q05

pub fn any_entry(s: &mut Src) -> POEntry {
    let o = EntryOpts { key: FREE, val: STR, annotations: s.chance(3, 4), width: 78 };
    let mut e = gen::po_entry(s, &o);
    e.linenum = s.us(5);
    // any combination of fields, also those no reader produces
    if s.chance(1, 4) {
        e.msgstr = gen::opt(s, 1, 2, STR);
    }
    if s.chance(1, 4) {
        e.msgid_plural = gen::opt(s, 1, 2, STR);
    }
    if s.chance(1, 4) {
        let n = s.range(0, 3);
        e.msgstr_plural = (0..n).map(|_| if s.chance(1, 3) { String::new() } else { gen::text(s, STR) }).collect();
    }
    if s.chance(1, 4) {
        e.msgctxt = gen::opt(s, 1, 2, FREE);
    }
    e
}

fn message(e: &POEntry) -> MOEntry {
    MOEntry { msgid: e.msgid.clone(), msgstr: e.msgstr.clone(), msgid_plural: e.msgid_plural.clone(), msgstr_plural: e.msgstr_plural.clone(), msgctxt: e.msgctxt.clone() }
}

fn blank() -> POEntry {
    POEntry {
        msgid: String::new(),
        msgstr: None,
        msgid_plural: None,
        msgstr_plural: vec![],
        msgctxt: None,
        obsolete: false,
        comment: None,
        tcomment: None,
        occurrences: vec![],
        flags: vec![],
        previous_msgid: None,
        previous_msgid_plural: None,
        previous_msgctxt: None,
        linenum: 0,
    }
}

pub fn q05(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (a, b) = (any_entry(s), any_entry(s));
    c.nontrivial(&format!("{a:?}{b:?}"), || format!("{a:?} and {b:?}"));
    // conversions
    for e in [&a, &b] {
        let m = call("MOEntry::from", || MOEntry::from(e))?;
        ensure!(m.same(&message(e)), "{e:?} converted to MO is {m:?}");
        let p = call("POEntry::from", || POEntry::from(&m))?;
        let mut want = blank();
        want.msgid = m.msgid.clone();
        want.msgstr = m.msgstr.clone();
        want.msgid_plural = m.msgid_plural.clone();
        want.msgstr_plural = m.msgstr_plural.clone();
        want.msgctxt = m.msgctxt.clone();
        ensure!(p.same(&want), "{m:?} converted to PO is {p:?}");
        // status
        let (tp, tm) = call("translated", || (p.translated(), m.translated()))?;
        ensure!(tp == tm, "{m:?} is translated={tm} as MO entry and translated={tp} as PO entry");
        if m.msgstr.is_none() || m.msgstr_plural.is_empty() {
            let want = if m.msgstr_plural.is_empty() { m.msgstr.as_deref().is_some_and(|t| !t.is_empty()) } else { m.msgstr_plural.iter().all(|t| !t.is_empty()) };
            ensure!(tm == want, "{m:?} is reported translated={tm}");
            c.ev_if(!want && m.msgstr_plural.iter().any(|t| !t.is_empty()), "partly_translated_plurals");
        }
        // key
        let want = match &e.msgctxt {
            Some(x) => format!("{x}\u{4}{}", e.msgid),
            None => e.msgid.clone(),
        };
        let (kp, km) = call("msgid_eot_msgctxt", || (e.msgid_eot_msgctxt(), m.msgid_eot_msgctxt()))?;
        ensure!(kp == want && km == want, "key of {e:?} is {kp:?} as PO entry and {km:?} as MO entry");
    }
    // merging
    let mut m = a.clone();
    call("merging entries", || m.merge(b.clone()))?;
    ensure!(m.same(&b), "{a:?} merged with {b:?} is {m:?}");
    let mut m = message(&a);
    call("merging entries", || m.merge(message(&b)))?;
    ensure!(m.same(&message(&b)), "{:?} merged with {:?} is {m:?}", message(&a), message(&b));
    // construction
    let t = gen::text(s, FREE);
    let u = gen::text(s, FREE);
    let n = s.us(1000);
    let mut want = blank();
    want.msgid = t.clone();
    ensure!(POEntry::from(t.as_str()).same(&want), "POEntry::from({t:?}) is {:?}", POEntry::from(t.as_str()));
    let me = MOEntry { msgid: t.clone(), msgstr: None, msgid_plural: None, msgstr_plural: vec![], msgctxt: None };
    ensure!(MOEntry::from(t.as_str()).same(&me), "MOEntry::from({t:?}) is {:?}", MOEntry::from(t.as_str()));
    want.msgstr = Some(u.clone());
    ensure!(POEntry::from((t.as_str(), u.as_str())).same(&want), "POEntry::from(({t:?}, {u:?})) is {:?}", POEntry::from((t.as_str(), u.as_str())));
    let mut want = blank();
    want.linenum = n;
    ensure!(POEntry::from(n).same(&want) && POEntry::new(n).same(&want), "POEntry::from({n}) is {:?}", POEntry::from(n));
    ensure!(POEntry::default().same(&blank()), "the default entry is {:?}", POEntry::default());
    // files from lists
    let k = s.range(0, 5);
    let list: Vec<&POEntry> = (0..k).map(|_| if s.chance(1, 2) { &a } else { &b }).collect();
    let f = call("POFile::from", || POFile::from(list.clone()))?;
    ensure!(f.entries.len() == k && f.entries.iter().zip(&list).all(|(x, y)| eq::po(x, y)), "a file from {k} entries holds {:?}", f.entries);
    ensure!(f.metadata.is_empty() && f.header.is_none() && !f.metadata_is_fuzzy && f.options.wrapwidth == 78, "a file from a list of entries is {f:?}");
    let ms: Vec<MOEntry> = list.iter().map(|e| message(e)).collect();
    let g = call("MOFile::from", || MOFile::from(ms.iter().collect::<Vec<_>>()))?;
    ensure!(g.entries.same(&ms) && g.metadata.is_empty() && g.options.wrapwidth == 78, "an MO file from {ms:?} is {g:?}");
    c.evn("entries_collected", k as u64);
    // a whole file
    let mut f = POFile::new(FileOptions { path_or_content: gen::text(s, STR), wrapwidth: s.us(200), byte_content: if s.chance(1, 4) { Some(vec![1, 2]) } else { None } });
    f.entries = list.iter().map(|e| (*e).clone()).collect();
    f.metadata = gen::metadata(s);
    f.header = gen::opt(s, 1, 2, STR);
    f.metadata_is_fuzzy = s.chance(1, 2);
    let g = call("MOFile::from", || MOFile::from(&f))?;
    let want: Vec<MOEntry> = list.iter().filter(|e| e.translated()).map(|e| message(e)).collect();
    ensure!(g.entries.same(&want), "the file {f:?} converted to MO has the messages {:?}", g.entries);
    ensure!(g.metadata == f.metadata, "the file {f:?} converted to MO has the metadata {:?}", g.metadata);
    let (x, y) = (&g.options, &f.options);
    ensure!(x.path_or_content == y.path_or_content && x.wrapwidth == y.wrapwidth && x.byte_content == y.byte_content, "a file with options {y:?} converted to MO has {x:?}");
    c.ev_if(want.len() < k && !want.is_empty(), "files_converted_with_untranslated");
    Ok(())
}
