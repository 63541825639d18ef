//! Independent PO writer: a document model plus a layout engine.
//!
//! `Doc` is the meaning of a PO file; `render` writes it down in one of the
//! many layouts the format allows and remembers what every physical line is,
//! so that oracles know what the reader must report and where.

use crate::gen;
use crate::src::Src;
use rspolib::{POEntry, POFile};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Doc {
    pub header: Vec<String>,
    /// metadata in file order, flags of the metadata entry
    pub meta: Option<(Vec<(String, String)>, Vec<String>)>,
    pub entries: Vec<POEntry>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Blank,
    Header,
    Tc,
    Gc,
    Oc,
    Fl,
    /// ignorable line (empty reference/flag line, `#~|`)
    Noop,
    /// `#| keyword "..."` / its continuation
    Prev,
    PrevCont,
    /// keyword line / its continuation
    Kw,
    Cont,
}

#[derive(Clone, Debug)]
pub struct PLine {
    pub text: String,
    pub kind: K,
    /// keyword this line belongs to ("" if none)
    pub field: &'static str,
    /// usize::MAX for header/meta lines
    pub entry: usize,
    /// index of the opening quote and the closing quote (byte offsets)
    pub quotes: Option<(usize, usize)>,
    pub obsolete: bool,
}

#[derive(Clone, Debug)]
pub struct Rendered {
    pub lines: Vec<PLine>,
    pub eol: &'static str,
    pub bom: bool,
    pub final_nl: bool,
}

impl Rendered {
    pub fn text(&self) -> String {
        let mut t = String::new();
        if self.bom {
            t.push('\u{feff}');
        }
        for (i, l) in self.lines.iter().enumerate() {
            if i > 0 {
                t.push_str(self.eol);
            }
            t.push_str(&l.text);
        }
        if self.final_nl {
            t.push_str(self.eol);
        }
        t
    }
}

pub struct Layout {
    pub indent: bool,
    pub spacing: bool,
    pub split: u64,
    pub blanks: bool,
    pub trailing: bool,
    pub shuffle: bool,
    pub noops: bool,
}

pub fn layout(s: &mut Src) -> Layout {
    Layout {
        indent: s.chance(1, 3),
        spacing: s.chance(1, 3),
        split: [0, 1, 3, 8][s.us(4)],
        blanks: s.chance(1, 3),
        trailing: s.chance(1, 4),
        shuffle: s.chance(1, 2),
        noops: s.chance(1, 4),
    }
}

/// Escape with the mandatory escapes plus some optional ones; returns units
/// that must not be cut.
fn escape_units(s: &mut Src, t: &str) -> Vec<String> {
    t.chars()
        .map(|c| match c {
            '"' => "\\\"".to_string(),
            '\\' => "\\\\".to_string(),
            '\n' => "\\n".to_string(),
            '\r' => "\\r".to_string(),
            '\t' => {
                if s.chance(1, 8) {
                    "\t".to_string()
                } else {
                    "\\t".to_string()
                }
            }
            '\u{8}' => "\\b".to_string(),
            c => c.to_string(),
        })
        .collect()
}

fn pieces(s: &mut Src, lay: &Layout, t: &str) -> Vec<String> {
    let units = escape_units(s, t);
    let mut out = vec![];
    let mut cur = String::new();
    if lay.split == 0 {
        return vec![units.concat()];
    }
    if s.chance(1, 2) {
        out.push(String::new());
    }
    // split after newlines and at random places
    let every = [4u64, 20, 60][s.us(3)];
    for u in units {
        let nl = u == "\\n";
        cur.push_str(&u);
        if (nl && s.chance(2, 3)) || s.chance(1, every + 8 - lay.split) {
            out.push(std::mem::take(&mut cur));
            if s.chance(1, 10) {
                out.push(String::new());
            }
        }
    }
    if !cur.is_empty() || out.is_empty() {
        out.push(cur);
    }
    out
}

fn blank(s: &mut Src, on: bool, dflt: &str) -> String {
    if on {
        s.pick(&[" ", "  ", "\t", " \t ", "    "]).to_string()
    } else {
        dflt.to_string()
    }
}

pub struct Out<'a> {
    pub lines: Vec<PLine>,
    pub lay: &'a Layout,
}

impl Out<'_> {
    fn push(&mut self, s: &mut Src, prefix: &str, body: &str, kind: K, field: &'static str, entry: usize, obsolete: bool) {
        if self.lay.blanks && s.chance(1, 6) {
            self.blank(s, entry);
        }
        let ind = if self.lay.indent && s.chance(1, 2) { blank(s, true, "") } else { String::new() };
        let mut text = format!("{ind}{prefix}{body}");
        let quotes = if matches!(kind, K::Kw | K::Cont | K::Prev | K::PrevCont) {
            let a = ind.len() + prefix.len();
            Some((a, text.len() - 1))
        } else {
            None
        };
        if self.lay.trailing && s.chance(1, 3) {
            text.push_str(s.pick(&[" ", "\t", "   "]));
        }
        self.lines.push(PLine { text, kind, field, entry, quotes, obsolete });
    }
    fn blank(&mut self, s: &mut Src, entry: usize) {
        let t = if self.lay.trailing { s.pick(&["", " ", "\t", "  \t"]).to_string() } else { String::new() };
        self.lines.push(PLine { text: t, kind: K::Blank, field: "", entry, quotes: None, obsolete: false });
    }
    fn string(&mut self, s: &mut Src, pre: &str, kw: &str, field: &'static str, value: &str, entry: usize, prev: bool, obsolete: bool) {
        let ps = pieces(s, self.lay, value);
        for (i, p) in ps.iter().enumerate() {
            let q = format!("\"{p}\"");
            let gap = blank(s, self.lay.spacing, " ");
            // the marker (#~ or #|) is followed by white space
            let mark = if pre.is_empty() { String::new() } else { format!("{pre}{}", blank(s, self.lay.spacing, " ")) };
            if i == 0 {
                self.push(s, &format!("{mark}{kw}{gap}"), &q, if prev { K::Prev } else { K::Kw }, field, entry, obsolete);
            } else {
                self.push(s, &mark, &q, if prev { K::PrevCont } else { K::Cont }, field, entry, obsolete);
            }
        }
    }
}

pub fn doc(s: &mut Src) -> Doc {
    let meta = if s.chance(3, 4) {
        let m = gen::metadata(s);
        let mut pairs: Vec<_> = m.into_iter().collect();
        pairs.sort();
        s.shuffle(&mut pairs);
        let fl = match s.us(6) {
            0..=2 => vec![],
            3 => vec!["fuzzy".to_string()],
            4 => vec!["c-format".to_string()],
            _ => vec!["no-wrap".to_string(), "fuzzy".to_string()],
        };
        Some((pairs, fl))
    } else {
        None
    };
    let header: Vec<String> = match gen::header(s) {
        Some(h) => h.split('\n').map(|x| x.to_string()).collect(),
        None => vec![],
    };
    let o = gen::EntryOpts { key: gen::FREE, val: gen::FREE, annotations: true, width: 78 };
    let n = gen::nentries(s);
    let mut entries = vec![];
    for i in 0..n {
        let mut e = gen::po_entry(s, &o);
        if e.msgstr.is_none() && e.msgstr_plural.is_empty() {
            e.msgstr = Some(String::new());
        }
        if e.obsolete {
            e.previous_msgctxt = None;
            e.previous_msgid = None;
            e.previous_msgid_plural = None;
        }
        if i == 0 && meta.is_none() {
            e.tcomment = None;
            if e.msgid.is_empty() {
                e.msgid = "m".into();
            }
        }
        entries.push(e);
    }
    Doc { header, meta, entries }
}

impl Doc {
    /// What a reader must produce, apart from line numbers.
    pub fn expected(&self) -> POFile {
        let mut f = POFile::new("".into());
        if !self.header.is_empty() {
            f.header = Some(self.header.join("\n"));
        }
        if let Some((pairs, fl)) = &self.meta {
            f.metadata = pairs.iter().cloned().collect::<HashMap<_, _>>();
            f.metadata_is_fuzzy = fl.iter().any(|x| x == "fuzzy");
        }
        f.entries = self.entries.clone();
        f
    }
}

pub fn render(s: &mut Src, d: &Doc, lay: &Layout) -> Rendered {
    let mut o = Out { lines: vec![], lay };
    const M: usize = usize::MAX;
    for h in &d.header {
        if h.is_empty() {
            o.push(s, "#", "", K::Header, "", M, false);
        } else {
            o.push(s, "# ", h, K::Header, "", M, false);
        }
    }
    if let Some((pairs, fl)) = &d.meta {
        if !fl.is_empty() {
            o.push(s, "#, ", &fl.join(", "), K::Fl, "", M, false);
        }
        let mut t = String::new();
        for (k, v) in pairs {
            t.push_str(k);
            // blanks around a value do not belong to it
            t.push_str(": ");
            if lay.spacing && s.chance(1, 3) {
                t.push_str(s.pick(&[" ", "\t", "   "]));
            }
            t.push_str(v);
            if lay.spacing && s.chance(1, 3) {
                t.push_str(s.pick(&[" ", "\t", " \t", "  "]));
            }
            t.push('\n');
        }
        o.string(s, "", "msgid", "msgid", "", M, false, false);
        o.string(s, "", "msgstr", "msgstr", &t, M, false, false);
        if !s.chance(1, 6) {
            o.blank(s, M);
        }
    }
    let last = d.entries.len();
    // seldom, a document of very many lines
    let pad = if last > 0 && s.chance(1, 1000) { (s.us(last), gen::lines(s)) } else { (last, 0) };
    for (ei, e) in d.entries.iter().enumerate() {
        // groups of annotation lines
        let mut groups: Vec<u32> = vec![];
        if e.tcomment.is_some() {
            groups.push(0);
        }
        if e.comment.is_some() {
            groups.push(1);
        }
        if !e.occurrences.is_empty() {
            groups.push(2);
        }
        if !e.flags.is_empty() {
            groups.push(3);
        }
        let mut prev = vec![];
        if e.previous_msgctxt.is_some() {
            prev.push(4);
        }
        if e.previous_msgid.is_some() {
            prev.push(5);
        }
        if e.previous_msgid_plural.is_some() {
            prev.push(6);
        }
        groups.extend(prev);
        if lay.shuffle {
            s.shuffle(&mut groups);
        }
        let mut first = true;
        for g in groups {
            if !first && lay.noops && s.chance(1, 4) {
                let t = *s.pick(&["#:", "#,", "#~| msgid \"old\"", "#~| \"more\""]);
                o.push(s, t, "", K::Noop, "", ei, e.obsolete);
            }
            first = false;
            match g {
                0 => {
                    for l in e.tcomment.as_ref().unwrap().split('\n') {
                        if l.is_empty() {
                            o.push(s, "#", "", K::Tc, "", ei, e.obsolete);
                        } else if l.starts_with('\t') && s.chance(1, 2) {
                            o.push(s, "#", l, K::Tc, "", ei, e.obsolete);
                        } else {
                            o.push(s, "# ", l, K::Tc, "", ei, e.obsolete);
                        }
                    }
                }
                1 => {
                    for l in e.comment.as_ref().unwrap().split('\n') {
                        o.push(s, "#. ", l, K::Gc, "", ei, e.obsolete);
                    }
                }
                2 => {
                    let mut i = 0;
                    while i < e.occurrences.len() {
                        let n = s.range(1, 6).min(e.occurrences.len() - i);
                        let mut body = String::new();
                        for (j, (f, l)) in e.occurrences[i..i + n].iter().enumerate() {
                            if j > 0 {
                                body.push_str(&blank(s, lay.spacing, " "));
                            }
                            body.push_str(f);
                            if !l.is_empty() {
                                body.push(':');
                                body.push_str(l);
                            }
                        }
                        o.push(s, "#: ", &body, K::Oc, "", ei, e.obsolete);
                        i += n;
                    }
                }
                3 => {
                    let mut i = 0;
                    while i < e.flags.len() {
                        let n = s.range(1, 3).min(e.flags.len() - i);
                        let sep = if lay.spacing { *s.pick(&[",", ", ", " , ", ",  "]) } else { ", " };
                        let body = e.flags[i..i + n].join(sep);
                        o.push(s, "#, ", &body, K::Fl, "", ei, e.obsolete);
                        i += n;
                    }
                }
                4 => o.string(s, "#|", "msgctxt", "msgctxt", e.previous_msgctxt.as_ref().unwrap(), ei, true, e.obsolete),
                5 => o.string(s, "#|", "msgid", "msgid", e.previous_msgid.as_ref().unwrap(), ei, true, e.obsolete),
                _ => o.string(s, "#|", "msgid_plural", "msgid_plural", e.previous_msgid_plural.as_ref().unwrap(), ei, true, e.obsolete),
            }
        }
        let pre = if e.obsolete { "#~" } else { "" };
        if let Some(c) = &e.msgctxt {
            o.string(s, pre, "msgctxt", "msgctxt", c, ei, false, e.obsolete);
        }
        o.string(s, pre, "msgid", "msgid", &e.msgid, ei, false, e.obsolete);
        if let Some(p) = &e.msgid_plural {
            o.string(s, pre, "msgid_plural", "msgid_plural", p, ei, false, e.obsolete);
        }
        if e.msgstr_plural.is_empty() {
            o.string(s, pre, "msgstr", "msgstr", e.msgstr.as_deref().unwrap_or(""), ei, false, e.obsolete);
        } else {
            let mut order: Vec<usize> = (0..e.msgstr_plural.len()).collect();
            if lay.shuffle && s.chance(1, 8) {
                s.shuffle(&mut order);
            }
            if lay.shuffle && s.chance(1, 8) {
                // an index that is left out is an empty form
                order.retain(|i| i + 1 == e.msgstr_plural.len() || !e.msgstr_plural[*i].is_empty());
            }
            for i in order {
                let kw = format!("msgstr[{i}]");
                o.string(s, pre, &kw, "msgstr[]", &e.msgstr_plural[i], ei, false, e.obsolete);
            }
        }
        if ei + 1 < last && !s.chance(1, 6) {
            o.blank(s, ei);
        }
        if ei == pad.0 {
            for _ in 0..pad.1 {
                o.blank(s, ei);
            }
        }
    }
    let eol = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let bom = s.chance(1, 8);
    let final_nl = !s.chance(1, 5);
    Rendered { lines: o.lines, eol, bom, final_nl }
}

impl Rendered {
    /// Expected line number of each entry (0 for the first in the file).
    pub fn starts(&self, d: &Doc) -> Vec<usize> {
        let mut v = vec![0; d.entries.len()];
        let mut seen = vec![false; d.entries.len()];
        let first_is_meta = d.meta.is_some();
        for (i, l) in self.lines.iter().enumerate() {
            if l.kind == K::Blank || l.entry == usize::MAX {
                continue;
            }
            if !seen[l.entry] {
                seen[l.entry] = true;
                v[l.entry] = if l.entry == 0 && !first_is_meta { 0 } else { i + 1 };
            }
        }
        v
    }
}
