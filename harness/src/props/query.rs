//! Status views, lookups, comparison and merging: Q01-Q04.

use super::Prop;
use crate::ensure;
use crate::eq::Same;
use crate::gen::{self, EntryOpts, FREE};
use crate::mon::{call, Ctx, Outcome, Viol};
use crate::src::Src;
use rspolib::prelude::*;
use rspolib::{EntryCmpByOptions, MOEntry, MOFile, POEntry, POFile};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "Q01", f: q01, rule: "catalogue with at least one translated and one untranslated entry, views compared after every edit; distinct by final content", quick: 5_000_000, thorough: 35_000_000 },
        Prop { id: "Q02", f: q02, rule: "history with at least one search that found something and one removal that removed something; distinct by history", quick: 7_000_000, thorough: 49_000_000 },
        Prop { id: "Q03", f: q03, rule: "triple of entries differing in at least one selected field; distinct by entries and selection", quick: 6_000_000, thorough: 42_000_000 },
        Prop { id: "Q04", f: q04, rule: "pair of catalogues with both shared and unshared messages; distinct by content", quick: 1_200_000, thorough: 8_400_000 },
    ]
}

// ---------------------------------------------------------------- Q01

fn is_fuzzy(e: &POEntry) -> bool {
    e.flags.iter().any(|f| f == "fuzzy")
}

fn is_translated(e: &POEntry) -> bool {
    if e.obsolete || is_fuzzy(e) {
        return false;
    }
    if e.msgstr_plural.is_empty() {
        matches!(&e.msgstr, Some(t) if !t.is_empty())
    } else {
        e.msgstr_plural.iter().all(|t| !t.is_empty())
    }
}

fn same(got: &[&POEntry], want: &[&POEntry]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| std::ptr::eq(*a, *b) || a.same(b))
}

fn status(f: &POFile, c: &mut Ctx) -> Outcome {
    let views = call("status views", || (f.translated_entries(), f.untranslated_entries(), f.fuzzy_entries(), f.obsolete_entries(), f.percent_translated()))?;
    let pick = |p: &dyn Fn(&POEntry) -> bool| -> Vec<&POEntry> { f.entries.iter().filter(|e| p(e)).collect() };
    let wt = pick(&is_translated);
    let wu = pick(&|e| !is_translated(e));
    let wf = pick(&|e| is_fuzzy(e) && !e.obsolete);
    let wo = pick(&|e| e.obsolete);
    let show = |v: &[&POEntry]| v.iter().map(|e| format!("{:?}/{:?}/{:?}/{:?}/obs={}", e.msgid, e.msgstr, e.msgstr_plural, e.flags, e.obsolete)).collect::<Vec<_>>().join("; ");
    ensure!(same(&views.0, &wt), "translated view is [{}], expected [{}]", show(&views.0), show(&wt));
    ensure!(same(&views.1, &wu), "untranslated view is [{}], expected [{}]", show(&views.1), show(&wu));
    ensure!(same(&views.2, &wf), "fuzzy view is [{}], expected [{}]", show(&views.2), show(&wf));
    ensure!(same(&views.3, &wo), "obsolete view is [{}], expected [{}]", show(&views.3), show(&wo));
    let pct = if f.entries.is_empty() { 0.0 } else { 100.0 * wt.len() as f64 / f.entries.len() as f64 };
    ensure!((views.4 as f64 - pct).abs() < 1e-3, "{} of {} entries translated but percentage is {}", wt.len(), f.entries.len(), views.4);
    for e in &f.entries {
        let t = call("entry status", || (e.translated(), e.fuzzy()))?;
        ensure!(t.0 == is_translated(e), "entry {e:?} reports translated={}", t.0);
        ensure!(t.1 == is_fuzzy(e), "entry {e:?} reports fuzzy={}", t.1);
    }
    c.ev("status_evaluations");
    c.evn("entries_translated", wt.len() as u64);
    c.evn("entries_fuzzy", wf.len() as u64);
    c.evn("entries_obsolete", wo.len() as u64);
    c.ev_if(f.entries.is_empty(), "empty_files");
    Ok(())
}

fn status_entry(s: &mut Src) -> POEntry {
    let mut e = POEntry::new(0);
    e.msgid = if s.chance(1, 8) { gen::text(s, FREE) } else { format!("m{}", s.us(5)) };
    e.msgctxt = if s.chance(1, 4) { Some("c".into()) } else { None };
    let tr = |s: &mut Src| match s.weighted(&[5, 3, 1]) {
        0 => "t".to_string(),
        1 => String::new(),
        _ => match s.us(3) {
            0 => s.pick(&[" ", "\n", "\0", "fuzzy", "é"]).to_string(),
            // nothing to see, but not empty
            1 => s.pick(&["\u{feff}", "\u{200b}", "\u{a0}", "\u{3000}", "\u{85}", "\r", "\t", "\u{2060}", "\u{ad}", "\u{200e}", "\u{e000}", "\u{fffd}", "\u{4}", "\\"]).to_string(),
            _ => {
                let mut t = gen::text(s, FREE);
                if s.chance(1, 2) {
                    t = t.chars().take(1).collect();
                }
                t
            }
        },
    };
    if s.chance(1, 2) {
        e.msgid_plural = if s.chance(1, 8) { None } else { Some("p".into()) };
        let n = if s.chance(1, 12) { s.range(5, 40) } else { s.us(5) };
        // of many forms mostly one or none is missing
        let gap = s.us(2 * n + 1);
        e.msgstr_plural = (0..n).map(|k| if n < 5 { tr(s) } else if k == gap { String::new() } else { "t".into() }).collect();
    } else {
        e.msgstr = if s.chance(1, 5) { None } else { Some(tr(s)) };
    }
    e.obsolete = s.chance(1, 4);
    let n = if s.chance(1, 20) { s.range(4, 24) } else { [0, 0, 0, 1, 1, 2, 3][s.us(7)] };
    e.flags = (0..n).map(|_| gen::flag(s)).collect();
    if s.chance(1, 10) {
        // not the flag "fuzzy"
        e.flags.push(s.pick(&[" fuzzy", "fuzzy ", "\tfuzzy", "fuzzy\n", "fuzzy,", ",fuzzy", "", "unfuzzy", "fuzzy\u{a0}", "fuzz", "c-format, fuzzy", "\"fuzzy\""]).to_string());
    }
    e
}

pub fn q01(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut f = POFile::new("".into());
    f.metadata_is_fuzzy = s.chance(1, 4);
    if s.chance(1, 4) {
        f.metadata = gen::metadata(s);
    }
    let n = s.range(0, 8);
    for _ in 0..n {
        let e = status_entry(s);
        f.entries.push(e);
    }
    if s.chance(1, 6) {
        // the same entries as read from text
        let t = call("rendering", || f.to_string())?;
        if let Ok(g) = call("reading", || rspolib::pofile(t.as_str()))? {
            f = g;
            for e in &mut f.entries {
                if !e.msgstr_plural.is_empty() {
                    e.msgstr = None;
                }
            }
            c.ev("files_read_from_text");
        }
    }
    status(&f, c)?;
    let steps = s.us(6);
    for _ in 0..steps {
        if f.entries.is_empty() || s.chance(1, 5) {
            let e = status_entry(s);
            let at = s.us(f.entries.len() + 1);
            f.entries.insert(at, e);
        } else {
            let i = s.us(f.entries.len());
            let e = &mut f.entries[i];
            match s.us(6) {
                0 => e.obsolete = !e.obsolete,
                1 => {
                    if is_fuzzy(e) {
                        e.flags.retain(|x| x != "fuzzy");
                    } else {
                        let at = s.us(e.flags.len() + 1);
                        e.flags.insert(at, "fuzzy".into());
                    }
                }
                2 => {
                    if e.msgstr_plural.is_empty() {
                        e.msgstr = if s.chance(1, 2) { Some(String::new()) } else { Some("x".into()) };
                    } else {
                        let k = s.us(e.msgstr_plural.len());
                        e.msgstr_plural[k] = if s.chance(1, 2) { String::new() } else { "y".into() };
                    }
                }
                3 => {
                    f.entries.remove(i);
                }
                4 => *e = status_entry(s),
                _ => {
                    let j = s.us(f.entries.len());
                    f.entries.swap(i, j);
                }
            }
        }
        status(&f, c)?;
    }
    let k = f.entries.iter().filter(|e| is_translated(e)).count();
    if k > 0 && k < f.entries.len() {
        c.nontrivial(&format!("{:?}", f.entries), || format!("{:?}", f.entries));
    }
    Ok(())
}

// ---------------------------------------------------------------- Q02

const VALS: &[&str] = &["", "a", "b", "A", "a b", "é", "fuzzy", "ab", " a", "a ", "a\n", "a\0", "e\u{301}", "a\u{4}b", "b\u{4}a", "\u{4}", "\u{4}a"];

/// The few texts a history draws from, so that its operations meet.
fn pool(s: &mut Src) -> Vec<String> {
    let n = s.range(1, 6);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let t = if s.chance(1, 12) {
            gen::text(s, FREE)
        } else if s.chance(1, 6) && !v.is_empty() {
            let t = s.pick(&v).clone();
            match s.us(5) {
                0 => t.to_uppercase(),
                1 => t + " ",
                2 => t.trim().to_string(),
                3 => t.chars().take(1).collect(),
                _ => t.clone() + &t,
            }
        } else {
            s.pick(VALS).to_string()
        };
        v.push(t);
    }
    v
}

fn oval(s: &mut Src, p: &[String]) -> Option<String> {
    if s.chance(1, 2) {
        Some(s.pick(p).clone())
    } else {
        None
    }
}

fn small_entry(s: &mut Src, p: &[String]) -> POEntry {
    let mut e = POEntry::new(s.us(3));
    e.msgid = s.pick(p).clone();
    e.msgctxt = oval(s, p);
    e.msgstr = oval(s, p);
    e.msgid_plural = if s.chance(1, 3) { oval(s, p) } else { None };
    if s.chance(1, 4) {
        e.msgstr_plural = vec![s.pick(p).clone(), s.pick(p).clone()];
    }
    if s.chance(1, 3) {
        e.previous_msgid = oval(s, p);
        e.previous_msgid_plural = oval(s, p);
        e.previous_msgctxt = oval(s, p);
    }
    e.obsolete = s.chance(1, 3);
    if s.chance(1, 4) {
        e.flags = gen::flags(s);
    }
    if s.chance(1, 6) {
        e.tcomment = oval(s, p);
        e.comment = oval(s, p);
        e.occurrences = gen::occurrences(s);
    }
    e
}

fn o(x: &Option<String>) -> &str {
    x.as_deref().unwrap_or("")
}

const PO_BY: &[&str] = &["msgid", "msgstr", "msgctxt", "msgid_plural", "previous_msgid", "previous_msgid_plural", "previous_msgctxt", "nonsense"];

fn po_field<'a>(e: &'a POEntry, by: &str) -> Option<&'a str> {
    Some(match by {
        "msgid" => &e.msgid,
        "msgstr" => o(&e.msgstr),
        "msgctxt" => o(&e.msgctxt),
        "msgid_plural" => o(&e.msgid_plural),
        "previous_msgid" => o(&e.previous_msgid),
        "previous_msgid_plural" => o(&e.previous_msgid_plural),
        "previous_msgctxt" => o(&e.previous_msgctxt),
        _ => return None,
    })
}

fn mo_field<'a>(e: &'a MOEntry, by: &str) -> Option<&'a str> {
    Some(match by {
        "msgid" => &e.msgid,
        "msgstr" => o(&e.msgstr),
        "msgctxt" => o(&e.msgctxt),
        "msgid_plural" => o(&e.msgid_plural),
        _ => return None,
    })
}

pub fn q02(s: &mut Src, c: &mut Ctx) -> Outcome {
    if s.chance(1, 3) {
        return q02_mo(s, c);
    }
    let mut f = POFile::new("".into());
    f.header = Some("h".into());
    f.metadata.insert("K".into(), "v".into());
    let mut model: Vec<POEntry> = vec![];
    let p = pool(s);
    let n = if s.chance(1, 400) { s.range(9, 120) } else { s.range(0, 8) };
    for _ in 0..n {
        let e = small_entry(s, &p);
        f.entries.push(e.clone());
        model.push(e);
    }
    let steps = if s.chance(1, 200) { s.range(13, 60) } else { s.range(1, 12) };
    let mut log = vec![];
    let (mut found, mut removed) = (false, false);
    for _ in 0..steps {
        let kind = s.weighted(&[6, 2, 3, 2, 2, 2, 2, 1]);
        let v = s.pick(&p).clone();
        let x = s.pick(&p).clone();
        match kind {
            0 => {
                let by = *s.pick(PO_BY);
                let ctx = if s.chance(1, 2) { Some(x.as_str()) } else { None };
                let obs = s.chance(1, 2);
                log.push(format!("find({v:?}, {by}, {ctx:?}, {obs})"));
                let got = call("find", || f.find(&v, by, ctx, obs).into_iter().cloned().collect::<Vec<_>>())?;
                let want: Vec<POEntry> = model
                    .iter()
                    .filter(|e| (obs || !e.obsolete) && po_field(e, by) == Some(&v) && ctx.is_none_or(|c| o(&e.msgctxt) == c))
                    .cloned()
                    .collect();
                found |= !want.is_empty();
                c.ev_if(!want.is_empty(), "searches_with_results");
                ensure!(got.same(&want), "{} gives {got:?}, expected {want:?}; entries {model:?}", log.last().unwrap());
            }
            1 => {
                let e = small_entry(s, &p);
                log.push("append".into());
                f.entries.push(e.clone());
                model.push(e);
            }
            2 => {
                log.push(format!("find_by_msgid({v:?})"));
                let got = call("find_by_msgid", || f.find_by_msgid(&v))?;
                let want = model.iter().find(|e| e.msgid == v).cloned();
                c.ev_if(want.is_some(), "lookups_with_result");
                ensure!(got.same(&want), "find_by_msgid({v:?}) gives {got:?}, expected {want:?}; entries {model:?}");
            }
            3 => {
                log.push(format!("find_by_msgid_msgctxt({v:?}, {x:?})"));
                let got = call("find_by_msgid_msgctxt", || f.find_by_msgid_msgctxt(&v, &x))?;
                let want = model.iter().find(|e| e.msgid == v && o(&e.msgctxt) == x).cloned();
                c.ev_if(want.is_some(), "lookups_with_result");
                ensure!(got.same(&want), "find_by_msgid_msgctxt({v:?}, {x:?}) gives {got:?}, expected {want:?}; entries {model:?}");
            }
            4 => {
                let mut e = if !model.is_empty() && s.chance(4, 5) { model[s.us(model.len())].clone() } else { small_entry(s, &p) };
                if s.chance(1, 3) {
                    // nearly equal
                    let flip = |x: &mut Option<String>| *x = if x.is_none() { Some(String::new()) } else { None };
                    match s.us(14) {
                        0 => e.obsolete = !e.obsolete,
                        1 => flip(&mut e.comment),
                        2 => flip(&mut e.msgctxt),
                        3 => e.flags.push("z".into()),
                        4 => flip(&mut e.tcomment),
                        5 => flip(&mut e.msgstr),
                        6 => flip(&mut e.msgid_plural),
                        7 => flip(&mut e.previous_msgid),
                        8 => flip(&mut e.previous_msgid_plural),
                        9 => flip(&mut e.previous_msgctxt),
                        10 => e.msgstr_plural.push(v.clone()),
                        11 => e.occurrences.push(("f".into(), "1".into())),
                        12 => e.msgid.push('x'),
                        _ => e.linenum += 1,
                    }
                }
                log.push(format!("remove({e:?})"));
                let before = model.len();
                call("remove", || f.remove(&e))?;
                model.retain(|m| !m.same(&e));
                removed |= before > model.len();
                c.ev_if(before > model.len(), "removals_effective");
            }
            5 => {
                log.push(format!("remove_by_msgid({v:?})"));
                let before = model.len();
                call("remove_by_msgid", || f.remove_by_msgid(&v))?;
                model.retain(|m| m.msgid != v);
                removed |= before > model.len();
                c.ev_if(before > model.len(), "removals_effective");
                c.ev_if(before > model.len() + 1, "removals_of_several");
            }
            6 => {
                log.push(format!("remove_by_msgid_msgctxt({v:?}, {x:?})"));
                let before = model.len();
                call("remove_by_msgid_msgctxt", || f.remove_by_msgid_msgctxt(&v, &x))?;
                model.retain(|m| m.msgid != v || o(&m.msgctxt) != x);
                removed |= before > model.len();
                c.ev_if(before > model.len(), "removals_effective");
            }
            _ => {
                if !model.is_empty() {
                    let i = s.us(model.len());
                    log.push(format!("edit({i})"));
                    let e = small_entry(s, &p);
                    f.entries[i] = e.clone();
                    model[i] = e;
                }
            }
        }
        ensure!(f.entries.same(&model), "after {} entries are {:?}, expected {model:?}", log.join("; "), f.entries);
    }
    ensure!(f.header.as_deref() == Some("h") && f.metadata == HashMap::from([("K".to_string(), "v".to_string())]), "header or metadata changed by {}", log.join("; "));
    c.evn("operations", steps as u64);
    if found && removed {
        c.nontrivial(&(log.join(";"), format!("{model:?}")), || log.join("; "));
    }
    Ok(())
}

fn q02_mo(s: &mut Src, c: &mut Ctx) -> Outcome {
    let mut f = MOFile::new("".into());
    let mut model: Vec<MOEntry> = vec![];
    let p = pool(s);
    let n = if s.chance(1, 400) { s.range(9, 120) } else { s.range(0, 8) };
    for _ in 0..n {
        let e = MOEntry::from(&small_entry(s, &p));
        f.entries.push(e.clone());
        model.push(e);
    }
    let steps = if s.chance(1, 200) { s.range(13, 60) } else { s.range(1, 12) };
    let mut log = vec![];
    let (mut found, mut removed) = (false, false);
    for _ in 0..steps {
        let kind = s.weighted(&[6, 2, 3, 2, 2, 2, 2]);
        let v = s.pick(&p).clone();
        let x = s.pick(&p).clone();
        match kind {
            0 => {
                let by = *s.pick(PO_BY);
                let ctx = if s.chance(1, 2) { Some(x.as_str()) } else { None };
                log.push(format!("mo.find({v:?}, {by}, {ctx:?})"));
                let got = call("find", || f.find(&v, by, ctx).into_iter().cloned().collect::<Vec<_>>())?;
                let want: Vec<MOEntry> = model.iter().filter(|e| mo_field(e, by) == Some(&v) && ctx.is_none_or(|c| o(&e.msgctxt) == c)).cloned().collect();
                found |= !want.is_empty();
                c.ev_if(!want.is_empty(), "searches_with_results");
                ensure!(got.same(&want), "{} gives {got:?}, expected {want:?}; entries {model:?}", log.last().unwrap());
            }
            1 => {
                let e = MOEntry::from(&small_entry(s, &p));
                log.push("append".into());
                f.entries.push(e.clone());
                model.push(e);
            }
            2 => {
                log.push(format!("find_by_msgid({v:?})"));
                let got = call("find_by_msgid", || f.find_by_msgid(&v).cloned())?;
                let want = model.iter().find(|e| e.msgid == v).cloned();
                c.ev_if(want.is_some(), "lookups_with_result");
                ensure!(got.same(&want), "MO find_by_msgid({v:?}) gives {got:?}, expected {want:?}; entries {model:?}");
            }
            3 => {
                log.push(format!("find_by_msgid_msgctxt({v:?}, {x:?})"));
                let got = call("find_by_msgid_msgctxt", || f.find_by_msgid_msgctxt(&v, &x).cloned())?;
                let want = model.iter().find(|e| e.msgid == v && o(&e.msgctxt) == x).cloned();
                c.ev_if(want.is_some(), "lookups_with_result");
                ensure!(got.same(&want), "MO find_by_msgid_msgctxt({v:?}, {x:?}) gives {got:?}, expected {want:?}; entries {model:?}");
            }
            4 => {
                let mut e = if !model.is_empty() && s.chance(4, 5) { model[s.us(model.len())].clone() } else { MOEntry::from(&small_entry(s, &p)) };
                if s.chance(1, 3) {
                    let flip = |x: &mut Option<String>| *x = if x.is_none() { Some(String::new()) } else { None };
                    match s.us(5) {
                        0 => flip(&mut e.msgctxt),
                        1 => flip(&mut e.msgstr),
                        2 => flip(&mut e.msgid_plural),
                        3 => e.msgstr_plural.push(v.clone()),
                        _ => e.msgid.push('x'),
                    }
                }
                log.push(format!("remove({e:?})"));
                let before = model.len();
                call("remove", || f.remove(&e))?;
                model.retain(|m| !m.same(&e));
                removed |= before > model.len();
            }
            5 => {
                log.push(format!("remove_by_msgid({v:?})"));
                let before = model.len();
                call("remove_by_msgid", || f.remove_by_msgid(&v))?;
                model.retain(|m| m.msgid != v);
                removed |= before > model.len();
            }
            _ => {
                log.push(format!("remove_by_msgid_msgctxt({v:?}, {x:?})"));
                let before = model.len();
                call("remove_by_msgid_msgctxt", || f.remove_by_msgid_msgctxt(&v, &x))?;
                model.retain(|m| m.msgid != v || o(&m.msgctxt) != x);
                removed |= before > model.len();
            }
        }
        ensure!(f.entries.same(&model), "after {} MO entries are {:?}, expected {model:?}", log.join("; "), f.entries);
    }
    c.evn("operations", steps as u64);
    c.ev("mo_histories");
    if found && removed {
        c.nontrivial(&(log.join(";"), format!("{model:?}")), || log.join("; "));
    }
    Ok(())
}

// ---------------------------------------------------------------- Q03

const FIELDS: [&str; 8] = ["obsolete", "occurrences", "flags", "msgctxt", "msgid_plural", "msgstr_plural", "msgid", "msgstr"];

fn options(s: &mut Src, sel: u8) -> EntryCmpByOptions {
    let on = |i: usize| sel >> i & 1 == 1;
    match s.us(4) {
        3 => {
            // any sequence of selections, completed by what is still wrong
            let set = |p: EntryCmpByOptions, i: usize, v: bool| match FIELDS[i] {
                "obsolete" => p.by_obsolete(v),
                "occurrences" => p.by_occurrences(v),
                "flags" => p.by_flags(v),
                "msgctxt" => p.by_msgctxt(v),
                "msgid_plural" => p.by_msgid_plural(v),
                "msgstr_plural" => p.by_msgstr_plural(v),
                "msgid" => p.by_msgid(v),
                _ => p.by_msgstr(v),
            };
            let mut p = EntryCmpByOptions::new();
            let mut now = [true; 8];
            for _ in 0..s.us(6) {
                let v = s.chance(1, 2);
                let i = s.us(12);
                if i < 8 {
                    now[i] = v;
                    p = set(p, i, v);
                } else {
                    now = [v; 8];
                    p = p.by_all(v);
                }
            }
            for i in 0..8 {
                if now[i] != on(i) {
                    p = set(p, i, on(i));
                }
            }
            p
        }
        0 => {
            let mut v: Vec<(String, bool)> = FIELDS.iter().enumerate().map(|(i, f)| (f.to_string(), on(i))).collect();
            if s.chance(1, 2) {
                v.insert(0, (s.pick(&["unknown", "", "all", "Msgid", "linenum"]).to_string(), s.chance(1, 2)));
            }
            // what is selected anyway need not be said
            if s.chance(1, 3) {
                v.retain(|(_, on)| !*on || s.chance(1, 2));
            }
            s.shuffle(&mut v);
            EntryCmpByOptions::from(&v)
        }
        1 => EntryCmpByOptions::new()
            .by_all(false)
            .by_msgid(on(6))
            .by_msgstr(on(7))
            .by_msgctxt(on(3))
            .by_obsolete(on(0))
            .by_occurrences(on(1))
            .by_msgid_plural(on(4))
            .by_msgstr_plural(on(5))
            .by_flags(on(2)),
        _ => {
            let mut p = if s.chance(1, 2) { EntryCmpByOptions::default() } else { EntryCmpByOptions::new().by_all(true) };
            for i in 0..8 {
                if !on(i) {
                    p = match FIELDS[i] {
                        "obsolete" => p.by_obsolete(false),
                        "occurrences" => p.by_occurrences(false),
                        "flags" => p.by_flags(false),
                        "msgctxt" => p.by_msgctxt(false),
                        "msgid_plural" => p.by_msgid_plural(false),
                        "msgstr_plural" => p.by_msgstr_plural(false),
                        "msgid" => p.by_msgid(false),
                        _ => p.by_msgstr(false),
                    };
                }
            }
            p
        }
    }
}

/// How one field compares: equal, decided with known direction, or decided
/// with a direction the property leaves open.
enum F {
    Eq,
    Dir(Ordering),
    Open,
}

fn text_cmp(a: &Option<String>, b: &Option<String>) -> F {
    match (a, b) {
        (Some(x), Some(y)) if x == y => F::Eq,
        (Some(x), Some(y)) => F::Dir(x.cmp(y)),
        (None, None) => F::Eq,
        _ => F::Open,
    }
}

fn multi_cmp<T: Ord + Clone>(a: &[T], b: &[T]) -> F {
    let (mut x, mut y) = (a.to_vec(), b.to_vec());
    x.sort();
    y.sort();
    if x == y {
        F::Eq
    } else if x.len() == 1 && y.len() == 1 {
        F::Dir(x.cmp(&y))
    } else {
        F::Open
    }
}

fn field_cmp(a: &POEntry, b: &POEntry, i: usize) -> F {
    match FIELDS[i] {
        "obsolete" => {
            if a.obsolete == b.obsolete {
                F::Eq
            } else {
                F::Dir(if a.obsolete { Ordering::Less } else { Ordering::Greater })
            }
        }
        "occurrences" => multi_cmp(&a.occurrences, &b.occurrences),
        "flags" => multi_cmp(&a.flags, &b.flags),
        "msgctxt" => text_cmp(&a.msgctxt, &b.msgctxt),
        "msgid_plural" => text_cmp(&a.msgid_plural, &b.msgid_plural),
        "msgstr_plural" => multi_cmp(&a.msgstr_plural, &b.msgstr_plural),
        "msgid" => text_cmp(&Some(a.msgid.clone()), &Some(b.msgid.clone())),
        _ => text_cmp(&a.msgstr, &b.msgstr),
    }
}

fn cmp_text(s: &mut Src) -> String {
    let t = match s.weighted(&[8, 1]) {
        0 => s.pick(&["", "a", "b", "aa", "A", "é", "z", "\u{1}", "a\0", "\0\0"]).to_string(),
        _ => gen::text(s, FREE),
    };
    if t == "\0" {
        "0".into()
    } else {
        t
    }
}

fn list_len(s: &mut Src) -> usize {
    if s.chance(1, 6) {
        s.range(4, 24)
    } else {
        s.us(4)
    }
}

/// Make a list different in one element or in the order only.
fn touch<T: Clone>(s: &mut Src, v: &mut [T], with: &[T]) {
    if v.is_empty() {
        return;
    }
    let k = s.us(v.len());
    match s.us(3) {
        0 => s.shuffle(v),
        1 => v.rotate_left(k),
        _ => {
            if let Some(x) = with.first() {
                v[k] = x.clone();
            }
        }
    }
}

fn cmp_entry(s: &mut Src) -> POEntry {
    let mut e = POEntry::new(s.us(4));
    let ot = |s: &mut Src| if s.chance(2, 3) { Some(cmp_text(s)) } else { None };
    e.msgid = cmp_text(s);
    e.msgctxt = ot(s);
    e.msgid_plural = ot(s);
    e.msgstr = ot(s);
    let n = list_len(s);
    e.msgstr_plural = (0..n).map(|_| cmp_text(s)).collect();
    let n = list_len(s);
    e.flags = (0..n).map(|_| s.pick(&["fuzzy", "c-format", "a", "b", "A", "Fuzzy", " a", ""]).to_string()).collect();
    let n = list_len(s);
    e.occurrences = (0..n).map(|_| (s.pick(&["f.c", "g.c", "f", "F.c", "./f.c", "f.c ", "f:1"]).to_string(), s.pick(&["", "1", "2", "10", "01", "9", "+1", "0", "00", "99999999999", "99999999998", "x", "y"]).to_string())).collect();
    e.obsolete = s.chance(1, 3);
    e.comment = ot(s);
    e.tcomment = ot(s);
    e.previous_msgid = ot(s);
    e
}

/// A variant equal in most fields.
fn cmp_variant(s: &mut Src, a: &POEntry) -> POEntry {
    let other = cmp_entry(s);
    let mut e = a.clone();
    let k = s.us(4);
    for _ in 0..k {
        match s.us(16) {
            0 => e.msgid = other.msgid.clone(),
            1 => e.msgctxt = other.msgctxt.clone(),
            2 => e.msgid_plural = other.msgid_plural.clone(),
            3 => e.msgstr = other.msgstr.clone(),
            4 => e.msgstr_plural = other.msgstr_plural.clone(),
            5 => e.flags = other.flags.clone(),
            6 => e.occurrences = other.occurrences.clone(),
            7 => e.obsolete = other.obsolete,
            8 => e.flags.reverse(),
            9 => e.occurrences.reverse(),
            10 => e.msgstr_plural.reverse(),
            11 => touch(s, &mut e.flags, &other.flags),
            12 => touch(s, &mut e.occurrences, &other.occurrences),
            13 => touch(s, &mut e.msgstr_plural, &other.msgstr_plural),
            14 => {
                // long texts that differ at the end
                let t = "long text ".repeat(s.range(1, 60));
                let tails = ["", "a", "b", " "];
                e.msgid = format!("{t}{}", s.pick(&tails));
                e.msgstr = Some(format!("{t}{}", s.pick(&tails)));
                e.msgctxt = Some(format!("{t}{}", s.pick(&tails)));
            }
            _ => {
                e.comment = other.comment.clone();
                e.linenum = other.linenum;
            }
        }
    }
    e
}

pub fn q03(s: &mut Src, c: &mut Ctx) -> Outcome {
    let a = cmp_entry(s);
    let b = if s.chance(3, 4) { cmp_variant(s, &a) } else { cmp_entry(s) };
    let d = if s.chance(3, 4) { cmp_variant(s, &b) } else { cmp_entry(s) };
    let mo = s.chance(1, 4);
    let es = [a, b, d];
    let ms: Vec<MOEntry> = es.iter().map(MOEntry::from).collect();
    let sel = match s.us(4) {
        0 => 0xff,
        1 => 1 << s.us(8),
        2 => !(1u8 << s.us(8)),
        _ => s.below(256) as u8,
    };
    // MO entries have neither obsolete, references nor flags
    let eff = if mo { sel & 0b1111_1000 } else { sel };
    let opt = options(s, sel);
    let mut r = [[Ordering::Equal; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = call("cmp_by", || if mo { ms[i].cmp_by(&ms[j], &opt) } else { es[i].cmp_by(&es[j], &opt) })?;
        }
    }
    let names: Vec<&str> = (0..8).filter(|i| sel >> i & 1 == 1).map(|i| FIELDS[i]).collect();
    let show = |i: usize, j: usize| format!("selection {names:?}, mo={mo}, left {:?}, right {:?}", es[i], es[j]);
    let mut differs = false;
    for i in 0..3 {
        for j in 0..3 {
            ensure!(r[i][j] == r[j][i].reverse(), "comparison {:?} one way and {:?} the other: {}", r[i][j], r[j][i], show(i, j));
            let first = (0..8).filter(|k| eff >> k & 1 == 1).map(|k| (k, field_cmp(&es[i], &es[j], k))).find(|(_, f)| !matches!(f, F::Eq));
            match first {
                None => ensure!(r[i][j] == Ordering::Equal, "all selected fields equal but comparison is {:?}: {}", r[i][j], show(i, j)),
                Some((k, F::Dir(d))) => {
                    differs = true;
                    ensure!(r[i][j] == d, "{} decides as {d:?} but comparison is {:?}: {}", FIELDS[k], r[i][j], show(i, j))
                }
                Some((k, _)) => {
                    differs = true;
                    ensure!(r[i][j] != Ordering::Equal, "{} differs but comparison is Equal: {}", FIELDS[k], show(i, j));
                    // the deciding field alone must give the same answer
                    let one = options(s, 1 << k);
                    let alone = call("cmp_by", || if mo { ms[i].cmp_by(&ms[j], &one) } else { es[i].cmp_by(&es[j], &one) })?;
                    ensure!(alone == r[i][j], "{} decides as {alone:?} alone but as {:?} together: {}", FIELDS[k], r[i][j], show(i, j));
                }
            }
            c.ev("comparisons");
        }
    }
    for (i, j, k) in [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)] {
        if r[i][j] != Ordering::Greater && r[j][k] != Ordering::Greater {
            ensure!(r[i][k] != Ordering::Greater, "not transitive: {:?} then {:?} but {:?}: {} / {:?}", r[i][j], r[j][k], r[i][k], show(i, j), es[k]);
            if r[i][j] == Ordering::Less || r[j][k] == Ordering::Less {
                ensure!(r[i][k] == Ordering::Less, "not transitive: {:?} then {:?} but {:?}: {} / {:?}", r[i][j], r[j][k], r[i][k], show(i, j), es[k]);
            }
        }
    }
    c.ev_if(mo, "mo_triples");
    if differs {
        c.nontrivial(&(format!("{es:?}"), sel, mo), || format!("{names:?}: {:?}", es));
    }
    Ok(())
}

// ---------------------------------------------------------------- Q04

type Key = (String, String);
fn key(e: &POEntry) -> Key {
    (e.msgid.clone(), e.msgctxt.clone().unwrap_or_default())
}

pub const MERGE_DISCARDED: &str = "Q04:matched-unchanged";

fn fields(e: &POEntry) -> Vec<String> {
    vec![
        format!("{:?}", e.msgstr),
        format!("{:?}", e.msgid_plural),
        format!("{:?}", e.msgstr_plural),
        format!("{:?}", e.flags),
        format!("{:?}", e.occurrences),
        format!("{:?}", e.comment),
        format!("{:?}", e.tcomment),
        format!("{:?}", e.previous_msgid),
        format!("{:?}", e.previous_msgid_plural),
        format!("{:?}", e.previous_msgctxt),
    ]
}

fn merge_file(s: &mut Src, unique: bool) -> POFile {
    let mut f = POFile::new("".into());
    let n = s.range(0, 7);
    let mut seen = HashSet::new();
    for _ in 0..n {
        let o = EntryOpts { key: FREE, val: FREE, annotations: s.chance(1, 2), width: 78 };
        let mut e = gen::po_entry(s, &o);
        if s.chance(5, 6) {
            e.msgid = s.pick(&["a", "b", "c", "d", "A", "a ", "", "a\u{4}b"]).to_string();
            e.msgctxt = s.pick(&[None, None, Some("x"), Some("y"), Some("a"), Some("X"), Some("")]).map(|x| x.to_string());
        }
        if seen.insert(key(&e)) || !unique {
            f.entries.push(e);
        }
    }
    if s.chance(1, 2) {
        f.metadata = gen::metadata(s);
        f.metadata_is_fuzzy = s.chance(1, 2);
        f.header = gen::opt(s, 1, 2, FREE);
        f.options.wrapwidth = s.us(100);
    }
    f
}

fn noline(e: &POEntry) -> POEntry {
    let mut e = e.clone();
    e.linenum = 0;
    e
}

fn check_merge(a: &POFile, b: &POFile, m: &POFile, c: &mut Ctx) -> Result<Option<String>, Viol> {
    let mut discarded = None;
    let bk: BTreeMap<Key, &POEntry> = b.entries.iter().map(|e| (key(e), e)).collect();
    let ak: HashSet<Key> = a.entries.iter().map(key).collect();
    ensure!(m.entries.len() >= a.entries.len(), "merging {} entries into {} leaves {}: {:?}", b.entries.len(), a.entries.len(), m.entries.len(), m.entries);
    for (x, y) in a.entries.iter().zip(&m.entries) {
        match bk.get(&key(x)) {
            None => {
                let mut want = noline(x);
                want.obsolete = true;
                ensure!(noline(y).same(&want), "message missing from the reference should become obsolete and keep its fields: {x:?} became {y:?}");
                c.ev("messages_obsoleted");
            }
            Some(r) => {
                ensure!(key(x) == key(y), "message {:?} present in both became {:?}", key(x), key(y));
                ensure!(!y.obsolete || x.obsolete || r.obsolete, "message present in both became obsolete: {x:?}; reference {:?}", b.entries);
                for ((fx, fr), fy) in fields(x).iter().zip(fields(r)).zip(fields(y)) {
                    ensure!(*fx == fy || fr == fy, "merged message has {fy} where the inputs have {fx} and {fr}");
                }
                if fields(x) != fields(r) && fields(x) == fields(y) {
                    discarded = Some(format!("{x:?} merged with {r:?} stays unchanged"));
                }
                c.ev("messages_in_both");
            }
        }
    }
    let added = &m.entries[a.entries.len()..];
    let want: Vec<POEntry> = b.entries.iter().filter(|e| !ak.contains(&key(e))).map(noline).collect();
    let got: Vec<POEntry> = added.iter().map(noline).collect();
    ensure!(got.same(&want), "messages only in the reference {want:?} but appended {got:?}; into {:?}", a.entries);
    c.evn("messages_added", want.len() as u64);
    Ok(discarded)
}

pub fn q04(s: &mut Src, c: &mut Ctx) -> Outcome {
    let unique = s.chance(3, 4);
    let a = merge_file(s, unique);
    let rounds = s.range(1, 3);
    let mut cur = a.clone();
    let mut disc = None;
    for i in 0..rounds {
        let b = if i > 0 && s.chance(1, 3) { cur.clone() } else { merge_file(s, true) };
        // the reference has distinct messages
        let mut seen = HashSet::new();
        let mut b = b;
        b.entries.retain(|e| seen.insert(key(e)));
        let mut m = cur.clone();
        call("merge", || m.merge(b.clone()))?;
        ensure!(
            m.header == cur.header && m.metadata == cur.metadata && m.metadata_is_fuzzy == cur.metadata_is_fuzzy && m.options.wrapwidth == cur.options.wrapwidth,
            "header, metadata and options {:?} {:?} {} {} became {:?} {:?} {} {}",
            cur.header, cur.metadata, cur.metadata_is_fuzzy, cur.options.wrapwidth, m.header, m.metadata, m.metadata_is_fuzzy, m.options.wrapwidth
        );
        let shared = cur.entries.iter().filter(|e| seen.contains(&key(e))).count();
        if shared > 0 && shared < cur.entries.len() && b.entries.len() > 1 {
            c.nontrivial(&format!("{:?}{:?}", cur.entries, b.entries), || format!("into {:?} merge {:?}", cur.entries, b.entries));
        }
        let d = check_merge(&cur, &b, &m, c)?;
        disc = disc.or(d);
        cur = m;
    }
    if let Some(d) = disc {
        return Err(Viol { msg: format!("a message present in both catalogues is not combined with its counterpart: {d}"), known: Some(MERGE_DISCARDED) });
    }
    Ok(())
}
